From 05acdb4619e450e618f74c40f6456b241f902c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 01/25] fix: do not write part of the values of a truncated
 write multiple request

---
 modbus_tk/modbus.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 17080d3..32c9682 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -659,11 +659,16 @@ class Slave(object):
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_address, quantity_of_x)
 
+        # unpack all the values first: nothing must be written if the data is truncated
+        fmt = "H" if self.unsigned else "h"
+        values = [
+            struct.unpack(">"+fmt, request_pdu[6+2*i:8+2*i])[0] for i in range(quantity_of_x)
+        ]
+
         count = 0
-        for i in range(quantity_of_x):
+        for value in values:
+            block[offset+count] = value
             count += 1
-            fmt = "H" if self.unsigned else "h"
-            block[offset+i] = struct.unpack(">"+fmt, request_pdu[6+2*i:8+2*i])[0]
 
         return struct.pack(">HH", starting_address, count)
 
@@ -684,12 +689,16 @@ class Slave(object):
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.COILS, starting_address, quantity_of_x)
 
+        # unpack all the bytes first: nothing must be written if the data is truncated
+        fmt = "B" if self.unsigned else "b"
+        byte_values = [
+            struct.unpack(">"+fmt, request_pdu[6+i:7+i])[0] for i in range(byte_count)
+        ]
+
         count = 0
-        for i in range(byte_count):
+        for i, byte_value in enumerate(byte_values):
             if count >= quantity_of_x:
                 break
-            fmt = "B" if self.unsigned else "b"
-            (byte_value, ) = struct.unpack(">"+fmt, request_pdu[6+i:7+i])
             for j in range(8):
                 if count >= quantity_of_x:
                     break
-- 
2.43.0


From 805d9e4a64cfb47f16d09392a3eb3547959263a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 02/25] fix: store the result of a mask write as a signed value
 on signed slaves

---
 modbus_tk/modbus.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 32c9682..a922e41 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -642,7 +642,11 @@ class Slave(object):
         (data_address, and_mask, or_mask) = struct.unpack(">HHH", request_pdu[1:7])
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, data_address, 1)
-        block[offset] = (block[offset] & and_mask) | (or_mask & ~and_mask)
+        value = (block[offset] & and_mask) | (or_mask & ~and_mask)
+        if not self.unsigned:
+            # store the 16-bit result as the signed value of the register
+            (value, ) = struct.unpack(">h", struct.pack(">H", value & 0xffff))
+        block[offset] = value
         # returns echo of the command
         return request_pdu[1:]
 
-- 
2.43.0


From 37738b5160e299a6d8292ffbbd0d1868f24ad120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 03/25] fix: perform the write of function 23 before the read,
 and check both ranges first

---
 modbus_tk/modbus.py | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index a922e41..a212ccf 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -601,37 +601,35 @@ class Slave(object):
         # get the starting address and the number of items from the request pdu
         (starting_read_address, quantity_of_x_to_read, starting_write_address, quantity_of_x_to_write, byte_count_to_write) = struct.unpack(">HHHHB", request_pdu[1:10])
 
-        # read part
+        # check everything before writing anything
         if (quantity_of_x_to_read <= 0) or (quantity_of_x_to_read > 125):
             # maximum allowed size is 125 registers in one reading
             LOGGER.debug("quantity_of_x_to_read is %d", quantity_of_x_to_read)
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
-        # look for the block corresponding to the request
-        block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_read_address, quantity_of_x_to_read)
-
-        # get the values
-        values = block[offset:offset+quantity_of_x_to_read]
-        # write the response header
-        response = struct.pack(">B", 2 * quantity_of_x_to_read)
-        # add the values of every register on 2 bytes
-        for reg in values:
-            fmt = "H" if self.unsigned else "h"
-            response += struct.pack(">"+fmt, reg)
-
-        # write part
         if (quantity_of_x_to_write <= 0) or (quantity_of_x_to_write > 123) or (byte_count_to_write != (quantity_of_x_to_write * 2)):
             # maximum allowed size is 123 registers in one reading
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
-        # look for the block corresponding to the request
+        # look for the blocks corresponding to the request
+        read_block, read_offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_read_address, quantity_of_x_to_read)
         block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_write_address, quantity_of_x_to_write)
 
-        count = 0
-        for i in range(quantity_of_x_to_write):
-            count += 1
-            fmt = "H" if self.unsigned else "h"
-            block[offset+i] = struct.unpack(">"+fmt, request_pdu[10+2*i:12+2*i])[0]
+        # write part: the modbus specification says that the write is performed before the read
+        fmt = "H" if self.unsigned else "h"
+        values = [
+            struct.unpack(">"+fmt, request_pdu[10+2*i:12+2*i])[0] for i in range(quantity_of_x_to_write)
+        ]
+        for i, value in enumerate(values):
+            block[offset+i] = value
+
+        # read part
+        values = read_block[read_offset:read_offset+quantity_of_x_to_read]
+        # write the response header
+        response = struct.pack(">B", 2 * quantity_of_x_to_read)
+        # add the values of every register on 2 bytes
+        for reg in values:
+            response += struct.pack(">"+fmt, reg)
 
         return response
 
-- 
2.43.0


From 9a06a3c74353a8043efa2b956f1adb7fe3f1f4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 04/25] fix: keep the blocks of a table sorted so that overlaps
 are always detected

---
 modbus_tk/modbus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index a212ccf..28bf90c 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -803,7 +803,7 @@ class Slave(object):
             # check that the new block doesn't overlap an existing block
             # it means that only 1 block per type must correspond to a given address
             # for example: it must not have 2 holding registers at address 100
-            index = 0
+            index = len(self._memory[block_type])
             for i in range(len(self._memory[block_type])):
                 block = self._memory[block_type][i]
                 if block.is_in(starting_address, size):
-- 
2.43.0


From 4e41c78fbac3b65b261dae3a9bc631f09d9c11e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 05/25] fix: write every value of a range given to
 Slave.set_values

---
 modbus_tk/modbus.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 28bf90c..17b6614 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -855,7 +855,7 @@ class Slave(object):
     def set_values(self, block_name, address, values):
         """
         Set the values of the items at the given address
-        If values is a list or a tuple, the value of every item is written
+        If values is a list, a tuple or a range, the value of every item is written
         If values is a number, only one value is written
         """
         # thread safe
@@ -866,8 +866,11 @@ class Slave(object):
             # check that it doesn't write out of the block
             offset = address-block.starting_address
 
+            # range(n) is a list in Python 2 but not in Python 3
+            is_sequence = isinstance(values, (list, tuple, type(range(0))))
+
             size = 1
-            if isinstance(values, list) or isinstance(values, tuple):
+            if is_sequence:
                 size = len(values)
 
             if (offset < 0) or ((offset + size) > block.size):
@@ -876,7 +879,7 @@ class Slave(object):
                 )
 
             # if Ok: write the values
-            if isinstance(values, list) or isinstance(values, tuple):
+            if is_sequence:
                 block[offset:offset+len(values)] = values
             else:
                 block[offset] = values
-- 
2.43.0


From 4c8473d151729cf6192c2a0af9e83208f8ec9927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 06/25] fix: carry out a broadcast on every slave and never
 answer it

---
 modbus_tk/modbus.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 17b6614..c32e610 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -962,9 +962,17 @@ class Databank(object):
 
             # get the slave and let him executes the action
             if slave_id == 0:
-                # broadcast
-                for key in self._slaves:
-                    self._slaves[key].handle_request(request_pdu, broadcast=True)
+                # broadcast: every slave executes it whatever the others do and no response is sent
+                with self._lock:
+                    slaves = list(self._slaves.values())
+                for slave in slaves:
+                    try:
+                        slave.handle_request(request_pdu, broadcast=True)
+                    except ModbusInvalidRequestError as excpt:
+                        LOGGER.error("invalid request: " + str(excpt))
+                    except Exception as excpt:
+                        call_hooks("modbus.Databank.on_error", (self, excpt, request_pdu))
+                        LOGGER.error("handle request failed: " + str(excpt))
                 return
             else:
                 try:
-- 
2.43.0


From e49cb049c3c48ed05f52553a8bca41d30b62c462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 07/25] fix: reject a response that answers another function
 than the requested one

---
 modbus_tk/modbus.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index c32e610..257d25d 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -377,6 +377,13 @@ class Master(object):
                 exception_code = byte_2
                 raise ModbusError(exception_code)
             else:
+                (request_code, ) = struct.unpack(">B", pdu[0:1])
+                if return_code != request_code:
+                    # this is not the response of this request
+                    raise ModbusInvalidResponseError(
+                        "Function code is {0} while {1} was requested. ".format(return_code, request_code)
+                    )
+
                 if is_read_function:
                     # get the values returned by the reading function
                     byte_count = byte_2
-- 
2.43.0


From eac78d21bf122a8d1a49bda20b7bd3c22f7f3a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 08/25] fix: decode the sub-function code echoed in a
 diagnostic response

---
 modbus_tk/modbus.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 257d25d..fa1fd0b 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -292,12 +292,13 @@ class Master(object):
         elif function_code == defines.DIAGNOSTIC:
             # SubFuncCode  are in starting_address
             pdu = struct.pack(">BH", function_code, starting_address)
+            if not data_format:
+                # the response is an echo of the request: the sub-function code followed by the data
+                data_format = ">H" + (len(output_value) * "B")
             if len(output_value) > 0:
                 for j in output_value:
                     # copy data in pdu
                     pdu += struct.pack(">B", j)
-                if not data_format:
-                    data_format = ">" + (len(output_value) * "B")
                 if expected_length < 0:
                     # No length was specified and calculated length can be used:
                     # slave + func + SubFunc1 + SubFunc2 + Data + crc1 + crc2
-- 
2.43.0


From 3f2352004ac8a28574a55e503a9ddceeb6a918b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 09/25] fix: reject file records whose length or reference type
 contradict the request

---
 modbus_tk/modbus.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index fa1fd0b..f9785ea 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -203,6 +203,7 @@ class Master(object):
                     'of one length > 0 (by the number of requested sub_seq)'
                 )
             pdu = struct.pack(">BB", function_code, count_seq * 7) + b''.join(map(lambda zip_param: struct.pack(">BHHH", *zip_param), zip(count_seq * (6, ), number_file, starting_address, quantity_of_x)))
+            default_format = not data_format
             if not data_format:
                 data_format = ">BB" + 'BB'.join(map(lambda x: x*'H', quantity_of_x))
             if expected_length < 0:
@@ -418,6 +419,16 @@ class Master(object):
                 if function_code == defines.READ_FILE_RECORD:
                     sub_seq = list()
                     ptr = 0
+                    for quantity in quantity_of_x if default_format else ():
+                        # each sub-response: length of the data and reference type in bytes, reference type, data
+                        if result[ptr] != 2 * quantity + 1 or result[ptr + 1] != 6:
+                            raise ModbusInvalidResponseError(
+                                "File record has length {0} and reference type {1} while {2} and 6 are expected. ".format(
+                                    result[ptr], result[ptr + 1], 2 * quantity + 1
+                                )
+                            )
+                        ptr += quantity + 2
+                    ptr = 0
                     while ptr < len(result):
                         sub_seq += ((ptr + 2, ptr + 2 + result[ptr] // 2), )
                         ptr += result[ptr] // 2 + 2
-- 
2.43.0


From 0e9b4088548afd9d1bb0bbfd4b9e028db24066ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 10/25] fix: send the whole response to the client of the TCP
 server

---
 modbus_tk/modbus_tcp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index e4808e9..2c6ec8f 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -346,7 +346,8 @@ class TcpServer(Server):
                                 retval = call_hooks("modbus_tcp.TcpServer.before_send", (self, sock, response))
                                 if retval is not None:
                                     response = retval
-                                sock.send(response)
+                                # send() may send a part of the response only
+                                sock.sendall(response)
                                 call_hooks("modbus_tcp.TcpServer.after_send", (self, sock, response))
                             except Exception as msg:
                                 is_ok = False
-- 
2.43.0


From f87bb6feae92e07b810f5f701d0daef8f22e65a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:55 +0000
Subject: [PATCH 11/25] fix: keep the TCP server listening after a failed
 accept, hook or close

---
 modbus_tk/modbus_tcp.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index 2c6ec8f..93e8f3d 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -356,6 +356,14 @@ class TcpServer(Server):
                                 )
             except Exception as excpt:
                 LOGGER.warning("Error while processing data on socket %d: %s", sock.fileno(), excpt)
-                call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
-                sock.close()
-                self._sockets.remove(sock)
+                try:
+                    call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
+                except Exception as msg:
+                    LOGGER.error("Error in the on_error hook, Exception occurred: %s", msg)
+                if sock != self._sock:
+                    # a connection is given up but the server keeps listening
+                    self._sockets.remove(sock)
+                    try:
+                        sock.close()
+                    except Exception as msg:
+                        LOGGER.warning("Error while closing socket, Exception occurred: %s", msg)
-- 
2.43.0


From ae75a5d3184ee5d00aea159a4ebf7e53ada62d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 12/25] fix: send the whole request of the TCP master

---
 modbus_tk/modbus_tcp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index 93e8f3d..59ae744 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -202,7 +202,8 @@ class TcpMaster(Master):
             #try to reconnect
             LOGGER.error('Error while flushing the socket: {0}'.format(msg))
             self._do_open()
-        self._sock.send(request)
+        # send() may send a part of the request only
+        self._sock.sendall(request)
 
     def _recv(self, expected_length=-1):
         """
-- 
2.43.0


From a1cbc5183a6e13c07001702029ec9e03a45d6e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 13/25] fix: end the response of the RTU over TCP master at a
 timeout, at the end of the stream and after an exception answer

---
 modbus_tk/modbus_rtu_over_tcp.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/modbus_tk/modbus_rtu_over_tcp.py b/modbus_tk/modbus_rtu_over_tcp.py
index becc866..1cef265 100644
--- a/modbus_tk/modbus_rtu_over_tcp.py
+++ b/modbus_tk/modbus_rtu_over_tcp.py
@@ -9,6 +9,8 @@
  This is distributed under GNU LGPL license, see license.txt
 """
 
+import socket
+
 from modbus_tk.hooks import call_hooks
 from modbus_tk.modbus_rtu import RtuQuery
 from modbus_tk.modbus_tcp import TcpMaster
@@ -21,11 +23,23 @@ class RtuOverTcpMaster(TcpMaster):
     def _recv(self, expected_length=-1):
         """Receive the response from the slave"""
         response = to_data('')
-        length = 255
+        # an RTU frame has 256 bytes at most
+        length = 256
         while len(response) < length:
-            rcv_byte = self._sock.recv(1)
-            if rcv_byte:
-                response += rcv_byte
+            try:
+                rcv_byte = self._sock.recv(1)
+            except socket.timeout:
+                if not response:
+                    raise
+                # nothing more is coming: the response is done, its CRC tells if it is complete
+                break
+            if not rcv_byte:
+                # the connection has been closed by the peer
+                break
+            response += rcv_byte
+            if len(response) == 2 and ord(response[1:2]) > 0x80:
+                # exception response: slave + func + code + crc1 + crc2
+                expected_length = 5
             if expected_length >= 0 and len(response) >= expected_length:
                 break
         retval = call_hooks("modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv", (self, response))
-- 
2.43.0


From bab340fd14531bf579c70d18dbafe552ee663bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:24 +0000
Subject: [PATCH 14/25] fix: call every hook when one of them uninstalls a hook
 or raises a KeyError

---
 modbus_tk/hooks.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modbus_tk/hooks.py b/modbus_tk/hooks.py
index 29f60b6..be23c30 100644
--- a/modbus_tk/hooks.py
+++ b/modbus_tk/hooks.py
@@ -99,12 +99,12 @@ def uninstall_hook(name, fct=None):
 def call_hooks(name, args):
     """call the function associated with the hook and pass the given args"""
     with _LOCK:
-        try:
-            for fct in _HOOKS[name]:
-                retval = fct(args)
-                if retval is not None:
-                    return retval
-        except KeyError:
-            pass
+        # a hook may install or uninstall hooks: go through a copy and skip the ones uninstalled meanwhile
+        for fct in list(_HOOKS.get(name, ())):
+            if fct not in _HOOKS[name]:
+                continue
+            retval = fct(args)
+            if retval is not None:
+                return retval
         return None
 
-- 
2.43.0


From 606d1b2eaceaeedccb33f6e7c0a4c790af2b9d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:24 +0000
Subject: [PATCH 15/25] fix: uninstall the given hook only, whatever its truth
 value is

---
 modbus_tk/hooks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/hooks.py b/modbus_tk/hooks.py
index be23c30..6fdff52 100644
--- a/modbus_tk/hooks.py
+++ b/modbus_tk/hooks.py
@@ -90,7 +90,7 @@ def install_hook(name, fct):
 def uninstall_hook(name, fct=None):
     """remove the function from the hooks"""
     with _LOCK:
-        if fct:
+        if fct is not None:
             _HOOKS[name].remove(fct)
         else:
             del _HOOKS[name][:]
-- 
2.43.0


From 1b8fd7fdf5dc6a709639badb91ff2bdfd4fa90e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:24 +0000
Subject: [PATCH 16/25] fix: let the hooks around the handling of a request
 return an empty value

---
 modbus_tk/modbus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index f9785ea..aea37bd 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -1124,12 +1124,12 @@ class Server(object):
         query = self._make_query()
 
         retval = call_hooks("modbus.Server.before_handle_request", (self, request))
-        if retval:
+        if retval is not None:
             request = retval
 
         response = self._databank.handle_request(query, request)
         retval = call_hooks("modbus.Server.after_handle_request", (self, response))
-        if retval:
+        if retval is not None:
             response = retval
 
         if response and self._verbose:
-- 
2.43.0


From 69d1d8ddea14721af8e322e88b4d9359b6876ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:18 +0000
Subject: [PATCH 17/25] fix: return the values read by the pymodbus client

---
 modbus_tk/pymodbusclient.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/modbus_tk/pymodbusclient.py b/modbus_tk/pymodbusclient.py
index c466591..d872c61 100644
--- a/modbus_tk/pymodbusclient.py
+++ b/modbus_tk/pymodbusclient.py
@@ -16,9 +16,7 @@ class PyModbusClientTCP():
 
     def read_input_registers(self, register, num=1):
         ret = self.client.execute(1, cst.READ_INPUT_REGISTERS, register, num)
-        to_array = None
-        to_array = map(to_array, ret)
-        return to_array
+        return list(ret)
 
     def write_single_register(self, register, word):
         self.client.execute(1, cst.WRITE_SINGLE_REGISTER, register, output_value=word)
@@ -28,17 +26,12 @@ class PyModbusClientTCP():
         self.client.execute(1, cst.WRITE_SINGLE_COIL, coil, output_value=value)
 
     def read_coils(self, bit_addr, bit_number=1):
-        self.client.execute(1, cst.READ_COILS, bit_addr, bit_number)
-        coils = self.coils[bit_addr:bit_addr+bit_number]
-        to_array = None
-        to_array = map(to_array, coils)
-        return to_array
+        coils = self.client.execute(1, cst.READ_COILS, bit_addr, bit_number)
+        return list(coils)
 
     def read_discrete_inputs(self, bit_addr, bit_number=1):
         registers = self.client.execute(1, cst.READ_DISCRETE_INPUTS, bit_addr, bit_number)
-        to_array = None
-        to_array = map(to_array, registers)
-        return to_array
+        return list(registers)
 
     def last_error(self):
         # TODO: Needs to have something here
-- 
2.43.0


From 935848f8efc5a026affbdac0ea0abdcc30fe4182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:18 +0000
Subject: [PATCH 18/25] fix: let the pymodbus client connect when no timeout is
 given

---
 modbus_tk/pymodbusclient.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/pymodbusclient.py b/modbus_tk/pymodbusclient.py
index d872c61..0f60b18 100644
--- a/modbus_tk/pymodbusclient.py
+++ b/modbus_tk/pymodbusclient.py
@@ -5,7 +5,9 @@ class PyModbusClientTCP():
     """ Client that allows a drop in replacement for pymodbus without any code change """
 
     def __init__(self, host=None, port=None, timeout=None, **kwargs):
-        self.client = modbus_tcp.TcpMaster(host=host, port=port, timeout_in_sec=timeout)
+        # no timeout given: use the one of the master
+        timeout_arg = {} if timeout is None else {"timeout_in_sec": timeout}
+        self.client = modbus_tcp.TcpMaster(host=host, port=port, **timeout_arg)
 
     def open(self):
         self.client.open()
-- 
2.43.0


From 4d16b2e112bf040aa347cc8df8c209bfec953493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:42 +0000
Subject: [PATCH 19/25] fix: exchange text over the simulator RPC with Python 3

---
 modbus_tk/simulator.py            | 7 ++++++-
 modbus_tk/simulator_rpc_client.py | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index a220c52..c943c09 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -91,12 +91,17 @@ class RpcHandler(SocketServer.BaseRequestHandler):
         # self.request is the TCP socket connected to the client
         # read the incoming command
         request = self.request.recv(1024).strip()
+        if not modbus_tk.utils.PY2:
+            # the commands are text
+            request = request.decode("utf-8")
         # write to the queue waiting to be processed by the server
         INPUT_QUEUE.put(request)
         # wait for the server answer in the output queue
         response = OUTPUT_QUEUE.get(timeout=5.0)
         # send back the answer
-        self.request.send(response)
+        if not modbus_tk.utils.PY2:
+            response = response.encode("utf-8")
+        self.request.sendall(response)
 
 
 class RpcInterface(threading.Thread):
diff --git a/modbus_tk/simulator_rpc_client.py b/modbus_tk/simulator_rpc_client.py
index 28049e7..14e368b 100644
--- a/modbus_tk/simulator_rpc_client.py
+++ b/modbus_tk/simulator_rpc_client.py
@@ -12,6 +12,7 @@ from __future__ import print_function
 
 import socket
 import modbus_tk.defines
+from modbus_tk.utils import PY2
 
 
 class SimulatorRpcClient(object):
@@ -28,9 +29,11 @@ class SimulatorRpcClient(object):
         sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
         sock.settimeout(self.timeout)
         sock.connect((self.host, self.port))
-        sock.send(query)
+        sock.sendall(query if PY2 else query.encode("utf-8"))
         response = sock.recv(1024)
         sock.close()
+        if not PY2:
+            response = response.decode("utf-8")
         return self._response_to_values(response.strip("\r\n"), query.split(" ")[0])
 
     def _response_to_values(self, response, command):
-- 
2.43.0


From 03bc27e71376033228a6e86de478fb8fc537bd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:42 +0000
Subject: [PATCH 20/25] fix: read whole lines in the simulator RPC, whatever
 their length and splits

---
 modbus_tk/simulator.py            |  9 ++++++++-
 modbus_tk/simulator_rpc_client.py | 10 ++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index c943c09..abaf535 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -90,7 +90,14 @@ class RpcHandler(SocketServer.BaseRequestHandler):
         """This function is called automatically by the SocketServer"""
         # self.request is the TCP socket connected to the client
         # read the incoming command
-        request = self.request.recv(1024).strip()
+        request = b""
+        while not request.endswith(b"\n"):
+            data = self.request.recv(1024)
+            if not data:
+                # the connection ended before the end of the line: there is no complete command
+                return
+            request += data
+        request = request.strip()
         if not modbus_tk.utils.PY2:
             # the commands are text
             request = request.decode("utf-8")
diff --git a/modbus_tk/simulator_rpc_client.py b/modbus_tk/simulator_rpc_client.py
index 14e368b..e6a96d3 100644
--- a/modbus_tk/simulator_rpc_client.py
+++ b/modbus_tk/simulator_rpc_client.py
@@ -29,8 +29,14 @@ class SimulatorRpcClient(object):
         sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
         sock.settimeout(self.timeout)
         sock.connect((self.host, self.port))
-        sock.sendall(query if PY2 else query.encode("utf-8"))
-        response = sock.recv(1024)
+        line = query + "\n"
+        sock.sendall(line if PY2 else line.encode("utf-8"))
+        response = b""
+        while not response.endswith(b"\n"):
+            data = sock.recv(1024)
+            if not data:
+                raise Exception("the connection ended before the end of the answer")
+            response += data
         sock.close()
         if not PY2:
             response = response.decode("utf-8")
-- 
2.43.0


From d40ff4e741abddfca7c58911e6664ce6f0ee05a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:43 +0000
Subject: [PATCH 21/25] fix: end the simulator on the quit command only

---
 modbus_tk/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index abaf535..b3f5a4e 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -343,7 +343,7 @@ class Simulator(object):
         while True:
             cmd = self.inq.get()
             args = cmd.strip('\r\n').split(' ')
-            if cmd.find('quit') == 0:
+            if args[0] == 'quit':
                 self.outq.put('bye-bye\r\n')
                 break
             elif args[0] in self.cmds:
-- 
2.43.0


From 04c03fed65927a8adb004a23a139bfeec47ba301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:39 +0000
Subject: [PATCH 22/25] fix: wait in Server.stop for the thread that was
 running

The ending thread replaces self._thread by a new one. When this happened
before join() was called, stop() raised RuntimeError (cannot join thread
before it is started) and did not wait.
---
 modbus_tk/modbus.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index aea37bd..50fa8a7 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -1096,9 +1096,11 @@ class Server(object):
 
     def stop(self):
         """stop the server. It doesn't handle request anymore"""
-        if self._thread.is_alive():
+        # the ending thread replaces self._thread by a new one which is not started
+        thread = self._thread
+        if thread.is_alive():
             self._go.clear()
-            self._thread.join()
+            thread.join()
 
     def _run_server(self):
         """main function of the main thread"""
-- 
2.43.0


From 6453531716bb8b005413575905ad1987bd44e3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:15 +0000
Subject: [PATCH 23/25] fix: let RtuServer stop while the line is never silent

The request was read up to a silence of the line, also after stop() had been
called: with a device that sends without pause stop() never returned.
---
 modbus_tk/modbus_rtu.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index 11c9ee8..f2e6656 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -272,8 +272,9 @@ class RtuServer(Server):
                     self._serial.open()
                 self._serial.timeout = self._timeout
 
-            # Read rest of the request
-            while True:
+            # Read rest of the request: up to a silence, which may never come
+            # once the server is asked to stop
+            while self._go.isSet():
                 try:
                     read_bytes = self._serial.read(128)
                     if not read_bytes:
-- 
2.43.0


From f5504195a819c6a242ab9baeb44e8d5c7615aeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:15 +0000
Subject: [PATCH 24/25] fix: uninstall only the given function with the
 simulator's uninstall_hook

The RPC client sends the name of the function, the command ignored it and
uninstalled every function of the hook.
---
 modbus_tk/simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index b3f5a4e..851c22a 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -327,8 +327,9 @@ class Simulator(object):
         If no function is given, uninstall all functions
         """
         hook_name = args[1]
+        fct = self._hooks_fct[args[2]] if len(args) > 2 and args[2] else None
         try:
-            hooks.uninstall_hook(hook_name)
+            hooks.uninstall_hook(hook_name, fct)
         except KeyError as exception:
             LOGGER.error(str(exception))
 
-- 
2.43.0


From 117eec45d72bc4f25bee2b5b07fd7d880dc5e64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:10 +0000
Subject: [PATCH 25/25] fix: a command of the console and one of a RPC client
 get each their own response

Both interfaces put their command in the same queue and take the next response of
the same queue: when used at the same time each could get the response of the other.
---
 modbus_tk/simulator.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index 851c22a..fb316b3 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -46,6 +46,9 @@ INPUT_QUEUE = queue.Queue()
 # response to be sent back by the interfaces
 OUTPUT_QUEUE = queue.Queue()
 
+# one command at a time: the response in the output queue is the one of this command
+COMMAND_LOCK = threading.Lock()
+
 
 class CompositeServer(modbus.Server):
     """make possible to have several servers sharing the same databank"""
@@ -101,10 +104,11 @@ class RpcHandler(SocketServer.BaseRequestHandler):
         if not modbus_tk.utils.PY2:
             # the commands are text
             request = request.decode("utf-8")
-        # write to the queue waiting to be processed by the server
-        INPUT_QUEUE.put(request)
-        # wait for the server answer in the output queue
-        response = OUTPUT_QUEUE.get(timeout=5.0)
+        with COMMAND_LOCK:
+            # write to the queue waiting to be processed by the server
+            INPUT_QUEUE.put(request)
+            # wait for the server answer in the output queue
+            response = OUTPUT_QUEUE.get(timeout=5.0)
         # send back the answer
         if not modbus_tk.utils.PY2:
             response = response.encode("utf-8")
@@ -178,8 +182,9 @@ class ConsoleInterface(threading.Thread):
         while self._go.isSet(): #while app is running
             if self._check_console_input(): #if something to read on the console
                 cmd = sys.stdin.readline() #read it
-                self.inq.put(cmd) #dispatch it tpo the server
-                response = self.outq.get(timeout=2.0) #wait for an answer
+                with COMMAND_LOCK:
+                    self.inq.put(cmd) #dispatch it tpo the server
+                    response = self.outq.get(timeout=2.0) #wait for an answer
                 sys.stdout.write(response) #write the answer on the console
 
     def close(self):
-- 
2.43.0

