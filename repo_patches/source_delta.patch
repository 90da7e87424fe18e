From 021108fce5fb633003fbcfbd9762527e86802451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 01/42] fix: keep the blocks of a table sorted so that every
 overlap is detected

A block starting after all others was inserted first, and the search for an
overlap stops at the first block with a higher address: a later block could
overlap one it never looked at.
---
 modbus_tk/modbus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 17080d3..a9bf7de 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -792,7 +792,7 @@ class Slave(object):
             # check that the new block doesn't overlap an existing block
             # it means that only 1 block per type must correspond to a given address
             # for example: it must not have 2 holding registers at address 100
-            index = 0
+            index = len(self._memory[block_type])
             for i in range(len(self._memory[block_type])):
                 block = self._memory[block_type][i]
                 if block.is_in(starting_address, size):
-- 
2.43.0


From 3bf9685436a9827d4e787a48cfbfac0f641580ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 02/42] fix: mask write stores a signed value on a signed slave

The register held a value out of the signed range and could not be read any more.
---
 modbus_tk/modbus.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index a9bf7de..132579b 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -642,7 +642,10 @@ class Slave(object):
         (data_address, and_mask, or_mask) = struct.unpack(">HHH", request_pdu[1:7])
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, data_address, 1)
-        block[offset] = (block[offset] & and_mask) | (or_mask & ~and_mask)
+        value = ((block[offset] & and_mask) | (or_mask & ~and_mask)) & 0xffff
+        if not self.unsigned and value > 0x7fff:
+            value -= 0x10000
+        block[offset] = value
         # returns echo of the command
         return request_pdu[1:]
 
-- 
2.43.0


From 2ddd4bb742f40963ddc9be7479921362ea3b8a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 03/42] fix: a truncated multiple write must not be partly
 carried out

The values were decoded while they were written: a request shorter than its
byte count changed the first items and was then answered with an error.
---
 modbus_tk/modbus.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 132579b..913040e 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -627,11 +627,11 @@ class Slave(object):
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_write_address, quantity_of_x_to_write)
 
-        count = 0
+        # decode all the values before changing any register: nothing must be written if the request is truncated
+        fmt = "H" if self.unsigned else "h"
+        values = struct.unpack(">"+(quantity_of_x_to_write*fmt), request_pdu[10:10+byte_count_to_write])
         for i in range(quantity_of_x_to_write):
-            count += 1
-            fmt = "H" if self.unsigned else "h"
-            block[offset+i] = struct.unpack(">"+fmt, request_pdu[10+2*i:12+2*i])[0]
+            block[offset+i] = values[i]
 
         return response
 
@@ -662,13 +662,13 @@ class Slave(object):
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_address, quantity_of_x)
 
-        count = 0
+        # decode all the values before changing any register: nothing must be written if the request is truncated
+        fmt = "H" if self.unsigned else "h"
+        values = struct.unpack(">"+(quantity_of_x*fmt), request_pdu[6:6+byte_count])
         for i in range(quantity_of_x):
-            count += 1
-            fmt = "H" if self.unsigned else "h"
-            block[offset+i] = struct.unpack(">"+fmt, request_pdu[6+2*i:8+2*i])[0]
+            block[offset+i] = values[i]
 
-        return struct.pack(">HH", starting_address, count)
+        return struct.pack(">HH", starting_address, quantity_of_x)
 
     def _write_multiple_coils(self, request_pdu):
         """execute modbus function 15"""
@@ -687,12 +687,14 @@ class Slave(object):
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.COILS, starting_address, quantity_of_x)
 
+        # decode all the bytes before changing any coil: nothing must be written if the request is truncated
+        byte_values = struct.unpack(">"+(byte_count*"B"), request_pdu[6:6+byte_count])
+
         count = 0
         for i in range(byte_count):
             if count >= quantity_of_x:
                 break
-            fmt = "B" if self.unsigned else "b"
-            (byte_value, ) = struct.unpack(">"+fmt, request_pdu[6+i:7+i])
+            byte_value = byte_values[i]
             for j in range(8):
                 if count >= quantity_of_x:
                     break
-- 
2.43.0


From 180059c3bdf4f90dd80a5d798478703f752ab745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 04/42] fix: server error responses carry the MAC layer and are
 only sent to who expects one

---
 modbus_tk/modbus.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 913040e..57f1aa3 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -947,6 +947,7 @@ class Databank(object):
         when a request is received, handle it and returns the response pdu
         """
         request_pdu = ""
+        slave_id = 0
         try:
             # extract the pdu and the slave id
             (slave_id, request_pdu) = query.parse_request(request)
@@ -982,12 +983,13 @@ class Databank(object):
             call_hooks("modbus.Databank.on_error", (self, excpt, request_pdu))
             LOGGER.error("handle request failed: " + str(excpt))
 
-        # If the request was not handled correctly, return a server error response
-        func_code = 1
-        if len(request_pdu) > 0:
-            (func_code, ) = struct.unpack(">B", request_pdu[0:1])
+        # No response to a broadcast nor to something which is not a request
+        if slave_id == 0 or len(request_pdu) == 0:
+            return ""
 
-        return struct.pack(">BB", func_code + 0x80, defines.SLAVE_DEVICE_FAILURE)
+        # If the request was not handled correctly, return a server error response
+        (func_code, ) = struct.unpack(">B", request_pdu[0:1])
+        return query.build_response(struct.pack(">BB", func_code + 0x80, defines.SLAVE_DEVICE_FAILURE))
 
 
 class Server(object):
-- 
2.43.0


From 9255e407d17441bab438c2b774e1fd6feb8f1d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 05/42] fix: a broadcast copes with slaves added or removed by
 another thread

---
 modbus_tk/modbus.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 57f1aa3..fccf182 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -955,8 +955,10 @@ class Databank(object):
             # get the slave and let him executes the action
             if slave_id == 0:
                 # broadcast
-                for key in self._slaves:
-                    self._slaves[key].handle_request(request_pdu, broadcast=True)
+                with self._lock:
+                    slaves = list(self._slaves.values())
+                for slave in slaves:
+                    slave.handle_request(request_pdu, broadcast=True)
                 return
             else:
                 try:
-- 
2.43.0


From 6cf940796379ca0e70e2f732f870f09d9f86debb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 06/42] fix: read/write multiple registers writes before it
 reads

---
 modbus_tk/modbus.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index fccf182..06b1292 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -601,38 +601,35 @@ class Slave(object):
         # get the starting address and the number of items from the request pdu
         (starting_read_address, quantity_of_x_to_read, starting_write_address, quantity_of_x_to_write, byte_count_to_write) = struct.unpack(">HHHHB", request_pdu[1:10])
 
-        # read part
         if (quantity_of_x_to_read <= 0) or (quantity_of_x_to_read > 125):
             # maximum allowed size is 125 registers in one reading
             LOGGER.debug("quantity_of_x_to_read is %d", quantity_of_x_to_read)
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
-        # look for the block corresponding to the request
-        block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_read_address, quantity_of_x_to_read)
-
-        # get the values
-        values = block[offset:offset+quantity_of_x_to_read]
-        # write the response header
-        response = struct.pack(">B", 2 * quantity_of_x_to_read)
-        # add the values of every register on 2 bytes
-        for reg in values:
-            fmt = "H" if self.unsigned else "h"
-            response += struct.pack(">"+fmt, reg)
-
-        # write part
         if (quantity_of_x_to_write <= 0) or (quantity_of_x_to_write > 123) or (byte_count_to_write != (quantity_of_x_to_write * 2)):
             # maximum allowed size is 123 registers in one reading
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
-        # look for the block corresponding to the request
+        # look for the blocks corresponding to the request
+        read_block, read_offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_read_address, quantity_of_x_to_read)
         block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_write_address, quantity_of_x_to_write)
 
+        # write part: the write operation is performed before the read
         # decode all the values before changing any register: nothing must be written if the request is truncated
         fmt = "H" if self.unsigned else "h"
         values = struct.unpack(">"+(quantity_of_x_to_write*fmt), request_pdu[10:10+byte_count_to_write])
         for i in range(quantity_of_x_to_write):
             block[offset+i] = values[i]
 
+        # read part
+        values = read_block[read_offset:read_offset+quantity_of_x_to_read]
+        # write the response header
+        response = struct.pack(">B", 2 * quantity_of_x_to_read)
+        # add the values of every register on 2 bytes
+        for reg in values:
+            fmt = "H" if self.unsigned else "h"
+            response += struct.pack(">"+fmt, reg)
+
         return response
 
     def _mask_write_register(self, request_pdu):
-- 
2.43.0


From 8985ecfe6eca9290247e15b692682b3508a0ad2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 07/42] fix: hook functions are called without holding the lock
 of the hooks

---
 modbus_tk/hooks.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/modbus_tk/hooks.py b/modbus_tk/hooks.py
index 29f60b6..8c0061b 100644
--- a/modbus_tk/hooks.py
+++ b/modbus_tk/hooks.py
@@ -99,12 +99,15 @@ def uninstall_hook(name, fct=None):
 def call_hooks(name, args):
     """call the function associated with the hook and pass the given args"""
     with _LOCK:
-        try:
-            for fct in _HOOKS[name]:
-                retval = fct(args)
-                if retval is not None:
-                    return retval
-        except KeyError:
-            pass
-        return None
+        fcts = list(_HOOKS.get(name, ()))
+    # don't hold the lock while calling the functions: they may wait for another thread which is calling a hook too
+    for fct in fcts:
+        with _LOCK:
+            if fct not in _HOOKS[name]:
+                # uninstalled in the meantime
+                continue
+        retval = fct(args)
+        if retval is not None:
+            return retval
+    return None
 
-- 
2.43.0


From 6688f8dbff7bba4431386e926ad0be2f0c908888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 08/42] fix: no deadlock between hooks of different slaves
 accessing each other

---
 modbus_tk/modbus.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 06b1292..db9b07d 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -463,6 +463,10 @@ class Slave(object):
     asked by a modbus query
     """
 
+    # a lock for mutual access to the _blocks and _memory maps. It is the same for all slaves because
+    # hook functions are called while holding it and they may access to other slaves
+    _data_lock = threading.RLock()
+
     def __init__(self, slave_id, unsigned=True, memory=None):
         """Constructor"""
         self._id = slave_id
@@ -482,8 +486,6 @@ class Slave(object):
             }
         else:
             self._memory = memory
-        # a lock for mutual access to the _blocks and _memory maps
-        self._data_lock = threading.RLock()
         # map modbus function code to a function:
         self._fn_code_map = {
             defines.READ_COILS: self._read_coils,
-- 
2.43.0


From b0f14491a102dee1153280efe03d3555ae49b3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 09/42] fix: stop() doesn't fail if the server thread is ending
 by itself

---
 modbus_tk/modbus.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index db9b07d..fffb05b 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -1063,9 +1063,11 @@ class Server(object):
 
     def stop(self):
         """stop the server. It doesn't handle request anymore"""
-        if self._thread.is_alive():
+        # _thread is replaced by a new one when the server thread ends
+        thread = self._thread
+        if thread.is_alive():
             self._go.clear()
-            self._thread.join()
+            thread.join()
 
     def _run_server(self):
         """main function of the main thread"""
-- 
2.43.0


From 67a0795c89e675e8c0c55ed10dd6f9ee23c691b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 10/42] fix: clean up when the server thread ends because of an
 error

---
 modbus_tk/modbus.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index fffb05b..c798311 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -1073,10 +1073,12 @@ class Server(object):
         """main function of the main thread"""
         try:
             self._do_init()
-            while self._go.isSet():
-                self._do_run()
-            LOGGER.debug("%s has stopped", self.__class__)
-            self._do_exit()
+            try:
+                while self._go.isSet():
+                    self._do_run()
+                LOGGER.debug("%s has stopped", self.__class__)
+            finally:
+                self._do_exit()
         except Exception as excpt:
             LOGGER.error("server error: %s", str(excpt))
             call_hooks("modbus.Server.on_exception", (self, excpt))
-- 
2.43.0


From 32b34e4027828ce9f7bfd7f252bf2b3cbfa94633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 11/42] fix: start() is not lost when the server thread has
 just ended by itself

---
 modbus_tk/modbus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index c798311..be4ed29 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -1022,8 +1022,9 @@ class Server(object):
 
     def _make_thread(self):
         """create the main thread of the server"""
-        self._thread = threading.Thread(target=Server._run_server, args=(self,))
+        # the thread comes last: whoever sees the new thread must also use the new event
         self._go = threading.Event()
+        self._thread = threading.Thread(target=Server._run_server, args=(self,))
 
     def set_verbose(self, verbose):
         """if verbose is true the sent and received packets will be logged"""
-- 
2.43.0


From 4cb9a6b42f41ac5de56183d48b6c6037aa9b3ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 12/42] fix: RtuOverTcpMaster handles disconnections and
 exception responses

---
 modbus_tk/modbus_rtu_over_tcp.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus_rtu_over_tcp.py b/modbus_tk/modbus_rtu_over_tcp.py
index becc866..d0a6c03 100644
--- a/modbus_tk/modbus_rtu_over_tcp.py
+++ b/modbus_tk/modbus_rtu_over_tcp.py
@@ -24,8 +24,13 @@ class RtuOverTcpMaster(TcpMaster):
         length = 255
         while len(response) < length:
             rcv_byte = self._sock.recv(1)
-            if rcv_byte:
-                response += rcv_byte
+            if not rcv_byte:
+                # disconnected: there is nothing more to receive
+                break
+            response += rcv_byte
+            if len(response) == 2 and bytearray(response)[1] > 0x80:
+                # exception: slave + func + code + crc1 + crc2
+                expected_length = 5
             if expected_length >= 0 and len(response) >= expected_length:
                 break
         retval = call_hooks("modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv", (self, response))
-- 
2.43.0


From f0683faf582d5ccc1980c00fa5fc5bd6e5ff51ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 13/42] fix: an error with an incoming connection doesn't close
 the TCP server

---
 modbus_tk/modbus_tcp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index e4808e9..c6cd5f3 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -356,5 +356,6 @@ class TcpServer(Server):
             except Exception as excpt:
                 LOGGER.warning("Error while processing data on socket %d: %s", sock.fileno(), excpt)
                 call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
-                sock.close()
-                self._sockets.remove(sock)
+                if sock != self._sock:
+                    sock.close()
+                    self._sockets.remove(sock)
-- 
2.43.0


From e30dade05b908679ac52b9948a352ccb9690caf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 14/42] fix: a response with another function code is not valid

---
 modbus_tk/modbus.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index be4ed29..8a74174 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -376,6 +376,11 @@ class Master(object):
                 # the slave has returned an error
                 exception_code = byte_2
                 raise ModbusError(exception_code)
+            elif return_code != struct.unpack(">B", pdu[0:1])[0]:
+                # it can not be the response to this request
+                raise ModbusInvalidResponseError(
+                    "Function code is {0} in the response to {1}".format(return_code, function_code)
+                )
             else:
                 if is_read_function:
                     # get the values returned by the reading function
-- 
2.43.0


From 0c0a5f1bda6fd26253d1281ab129257d01eae643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 15/42] fix: the response to a diagnostic request includes the
 sub-function code

---
 modbus_tk/modbus.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 8a74174..c037d92 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -292,16 +292,16 @@ class Master(object):
         elif function_code == defines.DIAGNOSTIC:
             # SubFuncCode  are in starting_address
             pdu = struct.pack(">BH", function_code, starting_address)
-            if len(output_value) > 0:
-                for j in output_value:
-                    # copy data in pdu
-                    pdu += struct.pack(">B", j)
-                if not data_format:
-                    data_format = ">" + (len(output_value) * "B")
-                if expected_length < 0:
-                    # No length was specified and calculated length can be used:
-                    # slave + func + SubFunc1 + SubFunc2 + Data + crc1 + crc2
-                    expected_length = len(output_value) + 6
+            for j in output_value:
+                # copy data in pdu
+                pdu += struct.pack(">B", j)
+            if not data_format:
+                # SubFunc + Data
+                data_format = ">H" + (len(output_value) * "B")
+            if expected_length < 0:
+                # No length was specified and calculated length can be used:
+                # slave + func + SubFunc1 + SubFunc2 + Data + crc1 + crc2
+                expected_length = len(output_value) + 6
 
         elif function_code == defines.READ_WRITE_MULTIPLE_REGISTERS:
             is_read_function = True
-- 
2.43.0


From 7d63bf4591bab11bd0400ea1d4fb501d3dbe6974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 16/42] fix: RtuMaster can be closed and opened again if the
 port was already closed

---
 modbus_tk/modbus_rtu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index 11c9ee8..513f6d5 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -114,7 +114,7 @@ class RtuMaster(Master):
         if self._serial.is_open:
             self._serial.close()
             call_hooks("modbus_rtu.RtuMaster.after_close", (self, ))
-            return True
+        return True
 
     def set_timeout(self, timeout_in_sec, use_sw_timeout=False):
         """Change the timeout value"""
-- 
2.43.0


From 2ed02a67903741fc362d1b8820be2036629b31fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 17/42] fix: remove_all_blocks keeps the memory shared between
 tables

---
 modbus_tk/modbus.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index c037d92..6774849 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -836,9 +836,9 @@ class Slave(object):
         """
         # thread safe
         with self._data_lock:
-            self._blocks.clear()
-            for key in self._memory:
-                self._memory[key] = []
+            # don't replace the lists: they may be shared by several block types
+            for block_name in list(self._blocks):
+                self.remove_block(block_name)
 
     def _get_block(self, block_name):
         """Find a block by its name and raise and exception if not found"""
-- 
2.43.0


From f7ca200b18a89129af52c2f93ec06d8eb6c24c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 18/42] fix: a file record with an unexpected length is not
 valid

---
 modbus_tk/modbus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 6774849..3e5d3b8 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -416,6 +416,8 @@ class Master(object):
                     sub_seq = list()
                     ptr = 0
                     while ptr < len(result):
+                        if result[ptr] != 2 * quantity_of_x[len(sub_seq)] + 1:
+                            raise ModbusInvalidResponseError("Invalid length of file record {0}".format(result[ptr]))
                         sub_seq += ((ptr + 2, ptr + 2 + result[ptr] // 2), )
                         ptr += result[ptr] // 2 + 2
                     result = tuple(map(lambda sub_seq_x: result[sub_seq_x[0]:sub_seq_x[1]], sub_seq))
-- 
2.43.0


From 1d0a06f27bd2fb414deee80d329a8b787246781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 19/42] fix: RtuOverTcpMaster can receive responses whose
 length is not known

---
 modbus_tk/modbus_rtu_over_tcp.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus_rtu_over_tcp.py b/modbus_tk/modbus_rtu_over_tcp.py
index d0a6c03..4b5b226 100644
--- a/modbus_tk/modbus_rtu_over_tcp.py
+++ b/modbus_tk/modbus_rtu_over_tcp.py
@@ -9,6 +9,8 @@
  This is distributed under GNU LGPL license, see license.txt
 """
 
+import socket
+
 from modbus_tk.hooks import call_hooks
 from modbus_tk.modbus_rtu import RtuQuery
 from modbus_tk.modbus_tcp import TcpMaster
@@ -21,9 +23,15 @@ class RtuOverTcpMaster(TcpMaster):
     def _recv(self, expected_length=-1):
         """Receive the response from the slave"""
         response = to_data('')
-        length = 255
+        length = 256
         while len(response) < length:
-            rcv_byte = self._sock.recv(1)
+            try:
+                rcv_byte = self._sock.recv(1)
+            except socket.timeout:
+                if not response:
+                    raise
+                # end of the response when its length is not known
+                break
             if not rcv_byte:
                 # disconnected: there is nothing more to receive
                 break
-- 
2.43.0


From e491ca7c75fc76d2bd2038b0dd2e00575f6aaf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 20/42] fix: PyModbusClientTCP returns the values it reads

---
 modbus_tk/pymodbusclient.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/modbus_tk/pymodbusclient.py b/modbus_tk/pymodbusclient.py
index c466591..3feac11 100644
--- a/modbus_tk/pymodbusclient.py
+++ b/modbus_tk/pymodbusclient.py
@@ -5,7 +5,9 @@ class PyModbusClientTCP():
     """ Client that allows a drop in replacement for pymodbus without any code change """
 
     def __init__(self, host=None, port=None, timeout=None, **kwargs):
-        self.client = modbus_tcp.TcpMaster(host=host, port=port, timeout_in_sec=timeout)
+        # use the default value of the master for what is not given
+        settings = {"host": host, "port": port, "timeout_in_sec": timeout}
+        self.client = modbus_tcp.TcpMaster(**{key: val for key, val in settings.items() if val is not None})
 
     def open(self):
         self.client.open()
@@ -16,9 +18,7 @@ class PyModbusClientTCP():
 
     def read_input_registers(self, register, num=1):
         ret = self.client.execute(1, cst.READ_INPUT_REGISTERS, register, num)
-        to_array = None
-        to_array = map(to_array, ret)
-        return to_array
+        return list(ret)
 
     def write_single_register(self, register, word):
         self.client.execute(1, cst.WRITE_SINGLE_REGISTER, register, output_value=word)
@@ -28,17 +28,12 @@ class PyModbusClientTCP():
         self.client.execute(1, cst.WRITE_SINGLE_COIL, coil, output_value=value)
 
     def read_coils(self, bit_addr, bit_number=1):
-        self.client.execute(1, cst.READ_COILS, bit_addr, bit_number)
-        coils = self.coils[bit_addr:bit_addr+bit_number]
-        to_array = None
-        to_array = map(to_array, coils)
-        return to_array
+        coils = self.client.execute(1, cst.READ_COILS, bit_addr, bit_number)
+        return list(coils)
 
     def read_discrete_inputs(self, bit_addr, bit_number=1):
         registers = self.client.execute(1, cst.READ_DISCRETE_INPUTS, bit_addr, bit_number)
-        to_array = None
-        to_array = map(to_array, registers)
-        return to_array
+        return list(registers)
 
     def last_error(self):
         # TODO: Needs to have something here
-- 
2.43.0


From 2fa0a7e9f3ffb243221aa1510173eb029002cc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 21/42] fix: the simulator answers to whoever sent the command,
 also with python 3

---
 modbus_tk/simulator.py            | 35 +++++++++++++++++++++++--------
 modbus_tk/simulator_rpc_client.py | 13 ++++++++----
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index a220c52..1cf5b6a 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -83,6 +83,16 @@ class CompositeServer(modbus.Server):
             srv.stop()
 
 
+class Command(str):
+    """A command line which knows in which queue its answer is expected"""
+
+    def __new__(cls, line):
+        """Constructor"""
+        cmd = super(Command, cls).__new__(cls, line)
+        cmd.outq = queue.Queue()
+        return cmd
+
+
 class RpcHandler(SocketServer.BaseRequestHandler):
     """An instance of this class is created every time an RPC call is received by the server"""
 
@@ -91,12 +101,17 @@ class RpcHandler(SocketServer.BaseRequestHandler):
         # self.request is the TCP socket connected to the client
         # read the incoming command
         request = self.request.recv(1024).strip()
+        if modbus_tk.utils.PY3:
+            request = request.decode("utf-8", "replace")
         # write to the queue waiting to be processed by the server
-        INPUT_QUEUE.put(request)
+        cmd = Command(request)
+        INPUT_QUEUE.put(cmd)
         # wait for the server answer in the output queue
-        response = OUTPUT_QUEUE.get(timeout=5.0)
+        response = cmd.outq.get(timeout=5.0)
         # send back the answer
-        self.request.send(response)
+        if modbus_tk.utils.PY3:
+            response = response.encode("utf-8")
+        self.request.sendall(response)
 
 
 class RpcInterface(threading.Thread):
@@ -165,9 +180,9 @@ class ConsoleInterface(threading.Thread):
         """read from the console, transfer to the server and write the answer"""
         while self._go.isSet(): #while app is running
             if self._check_console_input(): #if something to read on the console
-                cmd = sys.stdin.readline() #read it
+                cmd = Command(sys.stdin.readline()) #read it
                 self.inq.put(cmd) #dispatch it tpo the server
-                response = self.outq.get(timeout=2.0) #wait for an answer
+                response = cmd.outq.get(timeout=2.0) #wait for an answer
                 sys.stdout.write(response) #write the answer on the console
 
     def close(self):
@@ -330,18 +345,20 @@ class Simulator(object):
         """almost-for-ever loop in charge of listening for command and executing it"""
         while True:
             cmd = self.inq.get()
+            # answer to who sent the command
+            outq = getattr(cmd, "outq", self.outq)
             args = cmd.strip('\r\n').split(' ')
             if cmd.find('quit') == 0:
-                self.outq.put('bye-bye\r\n')
+                outq.put('bye-bye\r\n')
                 break
             elif args[0] in self.cmds:
                 try:
                     answer = self.cmds[args[0]](args)
-                    self.outq.put("%s done: %s\r\n" % (args[0], answer))
+                    outq.put("%s done: %s\r\n" % (args[0], answer))
                 except Exception as msg:
-                    self.outq.put("%s error: %s\r\n" % (args[0], msg))
+                    outq.put("%s error: %s\r\n" % (args[0], msg))
             else:
-                self.outq.put("error: unknown command %s\r\n" % (args[0]))
+                outq.put("error: unknown command %s\r\n" % (args[0]))
 
     def close(self):
         """close every server"""
diff --git a/modbus_tk/simulator_rpc_client.py b/modbus_tk/simulator_rpc_client.py
index 28049e7..bbe7469 100644
--- a/modbus_tk/simulator_rpc_client.py
+++ b/modbus_tk/simulator_rpc_client.py
@@ -28,10 +28,15 @@ class SimulatorRpcClient(object):
         sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
         sock.settimeout(self.timeout)
         sock.connect((self.host, self.port))
-        sock.send(query)
-        response = sock.recv(1024)
+        sock.sendall(query.encode("utf-8"))
+        # the simulator closes the connection after its answer
+        response = b""
+        data = sock.recv(1024)
+        while data:
+            response += data
+            data = sock.recv(1024)
         sock.close()
-        return self._response_to_values(response.strip("\r\n"), query.split(" ")[0])
+        return self._response_to_values(response.decode("utf-8").strip("\r\n"), query.split(" ")[0])
 
     def _response_to_values(self, response, command):
         """extract the return value from the response"""
@@ -89,7 +94,7 @@ class SimulatorRpcClient(object):
         """get the values of some registers"""
         query = "get_values %d %s %d %d" % (slave_id, block_name, address, length)
         ret_values = self._rpc_call(query)
-        return tuple([int(val) for val in ret_values.split(' ')])
+        return tuple([int(val) for val in ret_values.split()])
 
     def install_hook(self, hook_name, fct_name):
         """add a hook"""
-- 
2.43.0


From 6fce72ab2701dcfc66fe9cdb52cef8ab1c9da1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 22/42] fix: only the quit command stops the simulator

---
 modbus_tk/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index 1cf5b6a..5b18273 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -348,7 +348,7 @@ class Simulator(object):
             # answer to who sent the command
             outq = getattr(cmd, "outq", self.outq)
             args = cmd.strip('\r\n').split(' ')
-            if cmd.find('quit') == 0:
+            if args[0] == 'quit':
                 outq.put('bye-bye\r\n')
                 break
             elif args[0] in self.cmds:
-- 
2.43.0


From 19c2035db51e0bbcbde1b33cfb5fced7dbd28576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 23/42] fix: the uninstall_hook command can uninstall only the
 given function

---
 modbus_tk/simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index 5b18273..4d31fd3 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -330,8 +330,10 @@ class Simulator(object):
         If no function is given, uninstall all functions
         """
         hook_name = args[1]
+        # the name of the function is optional
+        fct = self._hooks_fct[args[2]] if len(args) > 2 and args[2] else None
         try:
-            hooks.uninstall_hook(hook_name)
+            hooks.uninstall_hook(hook_name, fct)
         except KeyError as exception:
             LOGGER.error(str(exception))
 
-- 
2.43.0


From fd7d586a01ca4d2e07d79db22bfc718c515206df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 24/42] fix: long RPC commands are not truncated

---
 modbus_tk/simulator.py            | 16 +++++++++++++++-
 modbus_tk/simulator_rpc_client.py |  2 +-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index 4d31fd3..e4688aa 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -18,6 +18,7 @@ import os
 import sys
 import select
 import serial
+import socket
 import threading
 import time
 
@@ -100,7 +101,20 @@ class RpcHandler(SocketServer.BaseRequestHandler):
         """This function is called automatically by the SocketServer"""
         # self.request is the TCP socket connected to the client
         # read the incoming command
-        request = self.request.recv(1024).strip()
+        request = self.request.recv(1024)
+        # a long command comes in several pieces: go on until the end of the line
+        # or until nothing more comes if the client doesn't send it
+        self.request.settimeout(0.1)
+        try:
+            while request and not request.endswith(b"\n"):
+                data = self.request.recv(1024)
+                if not data:
+                    break
+                request += data
+        except socket.timeout:
+            pass
+        self.request.settimeout(None)
+        request = request.strip()
         if modbus_tk.utils.PY3:
             request = request.decode("utf-8", "replace")
         # write to the queue waiting to be processed by the server
diff --git a/modbus_tk/simulator_rpc_client.py b/modbus_tk/simulator_rpc_client.py
index bbe7469..2d10ee2 100644
--- a/modbus_tk/simulator_rpc_client.py
+++ b/modbus_tk/simulator_rpc_client.py
@@ -28,7 +28,7 @@ class SimulatorRpcClient(object):
         sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
         sock.settimeout(self.timeout)
         sock.connect((self.host, self.port))
-        sock.sendall(query.encode("utf-8"))
+        sock.sendall((query + "\r\n").encode("utf-8"))
         # the simulator closes the connection after its answer
         response = b""
         data = sock.recv(1024)
-- 
2.43.0


From f1a3a8c9c1fc1b0ee22a4d0e7d84d69b70d8aed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 25/42] fix: a TCP response is sent whole or the connection is
 closed

---
 modbus_tk/modbus_tcp.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index c6cd5f3..96f7027 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -346,13 +346,18 @@ class TcpServer(Server):
                                 retval = call_hooks("modbus_tcp.TcpServer.before_send", (self, sock, response))
                                 if retval is not None:
                                     response = retval
-                                sock.send(response)
+                                is_ok = False
+                                sock.sendall(response)
+                                is_ok = True
                                 call_hooks("modbus_tcp.TcpServer.after_send", (self, sock, response))
                             except Exception as msg:
-                                is_ok = False
                                 LOGGER.error(
                                     "Error while sending on socket %d, Exception occurred: %s", sock.fileno(), msg
                                 )
+                            if not is_ok:
+                                # nothing can follow a response which may be partly sent
+                                sock.close()
+                                self._sockets.remove(sock)
             except Exception as excpt:
                 LOGGER.warning("Error while processing data on socket %d: %s", sock.fileno(), excpt)
                 call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
-- 
2.43.0


From 1487ffde4dc0434561de20e96efbcd9d23b3ecbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 26/42] fix: start() is not lost while the previous server
 thread is ending

---
 modbus_tk/modbus.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 3e5d3b8..9f4f2f2 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -1066,8 +1066,10 @@ class Server(object):
 
     def start(self):
         """Start the server. It will handle request"""
+        # the event belongs to this thread or to a newer one: it is not the one of a thread which is ending
+        thread = self._thread
         self._go.set()
-        self._thread.start()
+        thread.start()
 
     def stop(self):
         """stop the server. It doesn't handle request anymore"""
-- 
2.43.0


From 2f98a951f27f2a9367710109d6444ac20b3fbac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:50 +0000
Subject: [PATCH 27/42] fix: exception responses are received with the software
 timeout of RtuMaster

---
 modbus_tk/modbus_rtu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index 513f6d5..480eb63 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -155,9 +155,10 @@ class RtuMaster(Master):
                 read_duration = time.time() - start_time
             else:
                 read_duration = 0
+            # the last bytes count, even if waiting for more of them has exhausted the timeout
+            response += read_bytes
             if (not read_bytes) or (read_duration > self._serial.timeout):
                 break
-            response += read_bytes
             if expected_length >= 0 and len(response) >= expected_length:
                 # if the expected number of byte is received consider that the response is done
                 # improve performance by avoiding end-of-response detection by timeout
-- 
2.43.0


From 5b2f7fe2007be85bf47c2113a9d2d27d6d1503de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:40 +0000
Subject: [PATCH 28/42] fix: an empty request or response returned by a hook of
 Server is used like any other

---
 modbus_tk/modbus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 9f4f2f2..686edd3 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -1105,12 +1105,12 @@ class Server(object):
         query = self._make_query()
 
         retval = call_hooks("modbus.Server.before_handle_request", (self, request))
-        if retval:
+        if retval is not None:
             request = retval
 
         response = self._databank.handle_request(query, request)
         retval = call_hooks("modbus.Server.after_handle_request", (self, response))
-        if retval:
+        if retval is not None:
             response = retval
 
         if response and self._verbose:
-- 
2.43.0


From bd9e8aaf90340526350a7dd1b4ff38e277d3d444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:32 +0000
Subject: [PATCH 29/42] fix: the console goes on when a command takes more than
 2 seconds to answer

---
 modbus_tk/simulator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index e4688aa..6dcd189 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -196,7 +196,13 @@ class ConsoleInterface(threading.Thread):
             if self._check_console_input(): #if something to read on the console
                 cmd = Command(sys.stdin.readline()) #read it
                 self.inq.put(cmd) #dispatch it tpo the server
-                response = cmd.outq.get(timeout=2.0) #wait for an answer
+                response = None
+                while response is None:
+                    try:
+                        response = cmd.outq.get(timeout=2.0) #wait for an answer
+                    except queue.Empty: #the command is long
+                        if not self._go.isSet():
+                            return
                 sys.stdout.write(response) #write the answer on the console
 
     def close(self):
-- 
2.43.0


From 08bb8b5808315904c569edb2321379f147146bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:43 +0000
Subject: [PATCH 30/42] fix: RtuMaster took a late or fragmented local echo for
 the response

---
 modbus_tk/modbus_rtu.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index 480eb63..8f6fa05 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -137,7 +137,13 @@ class RtuMaster(Master):
 
         # Read the echo data, and discard it
         if self.handle_local_echo:
-            self._serial.read(len(request))
+            echo_len = 0
+            while echo_len < len(request):
+                echo = self._serial.read(len(request) - echo_len)
+                if not echo:
+                    # the rest of the echo must not be taken for the response
+                    raise ModbusInvalidResponseError("Only {0} bytes of local echo".format(echo_len))
+                echo_len += len(echo)
 
     def _recv(self, expected_length=-1):
         """Receive the response from the slave"""
-- 
2.43.0


From 03aeb77654e427bc05f4bbca43d2c9b8b61a9e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:17 +0000
Subject: [PATCH 31/42] fix: RtuMaster: a line which never falls silent does
 not keep execute for ever

---
 modbus_tk/modbus_rtu.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index 8f6fa05..544a813 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -169,6 +169,9 @@ class RtuMaster(Master):
                 # if the expected number of byte is received consider that the response is done
                 # improve performance by avoiding end-of-response detection by timeout
                 break
+            if expected_length < 0 and len(response) >= 256:
+                # no response is longer: do not wait for ever for the end of what is sent
+                break
             readed_len += len(read_bytes)
 
         retval = call_hooks("modbus_rtu.RtuMaster.after_recv", (self, response))
-- 
2.43.0


From 8f3c1e3a11c882fd190138b99d7ec3fcd27396d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:40 +0000
Subject: [PATCH 32/42] fix: TcpServer: a client which sends byte after byte
 does not keep the others waiting

---
 modbus_tk/modbus_tcp.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index 96f7027..bec1a58 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -12,6 +12,7 @@
 import socket
 import select
 import struct
+import time
 
 from modbus_tk import LOGGER
 from modbus_tk.hooks import call_hooks
@@ -307,12 +308,16 @@ class TcpServer(Server):
 
                     # handle all other sockets
                     sock.settimeout(1.0)
+                    # the other clients are waiting: no request may take longer, whatever the pace of its bytes
+                    deadline = time.time() + 5.0
                     request = to_data("")
                     is_ok = True
 
                     # read the 7 bytes of the mbap
                     while (len(request) < 7) and is_ok:
                         new_byte = sock.recv(1)
+                        if time.time() > deadline:
+                            raise socket.timeout("The request is too slow")
                         if len(new_byte) == 0:
                             is_ok = False
                         else:
@@ -325,8 +330,11 @@ class TcpServer(Server):
                     if is_ok:
                         # read the rest of the request
                         length = self._get_request_length(request)
+                        deadline = time.time() + 5.0
                         while (len(request) < (length + 6)) and is_ok:
                             new_byte = sock.recv(1)
+                            if time.time() > deadline:
+                                raise socket.timeout("The request is too slow")
                             if len(new_byte) == 0:
                                 is_ok = False
                             else:
-- 
2.43.0


From f0a2a821a233b065c1e39dcb4e9c9af5c2194ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:19 +0000
Subject: [PATCH 33/42] fix: RtuServer.stop() returns even if the line never
 falls silent

---
 modbus_tk/modbus_rtu.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index 544a813..b52be37 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -293,6 +293,9 @@ class RtuServer(Server):
                     self._serial.open()
                     break
                 request += read_bytes
+                if len(request) > 256 and not self._go.isSet():
+                    # no request is longer, and the line may never fall silent: stop() is waiting
+                    return
 
             # parse the request
             if request:
-- 
2.43.0


From 309f6758df5d0ae049d8d1b459a0e2ad3ceafb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:14 +0000
Subject: [PATCH 34/42] fix: TcpMaster sends the whole request, however little
 of it the network takes at once

---
 modbus_tk/modbus_tcp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index bec1a58..d73bf16 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -203,7 +203,12 @@ class TcpMaster(Master):
             #try to reconnect
             LOGGER.error('Error while flushing the socket: {0}'.format(msg))
             self._do_open()
-        self._sock.send(request)
+        try:
+            self._sock.sendall(request)
+        except Exception:
+            # nothing can follow a request which may be partly sent
+            self.close()
+            raise
 
     def _recv(self, expected_length=-1):
         """
-- 
2.43.0


From a2933d989a5ec73cae274215433a86e8ea72a9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:07 +0000
Subject: [PATCH 35/42] fix: an on_error hook which raises does not end the
 thread of a server

---
 modbus_tk/modbus_rtu.py | 6 +++++-
 modbus_tk/modbus_tcp.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index b52be37..ca81bd2 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -324,4 +324,8 @@ class RtuServer(Server):
 
         except Exception as excpt:
             LOGGER.error("Error while handling request, Exception occurred: %s", excpt)
-            call_hooks("modbus_rtu.RtuServer.on_error", (self, excpt))
+            try:
+                call_hooks("modbus_rtu.RtuServer.on_error", (self, excpt))
+            except Exception as msg:
+                # a hook must not end the thread of the server
+                LOGGER.error("Error in on_error hook, Exception occurred: %s", msg)
diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index d73bf16..216a95f 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -373,7 +373,11 @@ class TcpServer(Server):
                                 self._sockets.remove(sock)
             except Exception as excpt:
                 LOGGER.warning("Error while processing data on socket %d: %s", sock.fileno(), excpt)
-                call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
+                try:
+                    call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
+                except Exception as msg:
+                    # a hook must not end the thread of the server
+                    LOGGER.error("Error in on_error hook, Exception occurred: %s", msg)
                 if sock != self._sock:
                     sock.close()
                     self._sockets.remove(sock)
-- 
2.43.0


From cb8733a2c7c5ff7b805810c2404a2b82727f1d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:07 +0000
Subject: [PATCH 36/42] fix: a server can be started again after an
 on_exception hook which raises

---
 modbus_tk/modbus.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 686edd3..17a5a01 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -1092,8 +1092,9 @@ class Server(object):
         except Exception as excpt:
             LOGGER.error("server error: %s", str(excpt))
             call_hooks("modbus.Server.on_exception", (self, excpt))
-        # make possible to rerun in future
-        self._make_thread()
+        finally:
+            # make possible to rerun in future
+            self._make_thread()
 
     def _handle(self, request):
         """handle a received sentence"""
-- 
2.43.0


From eff474bfa8c000f2cba69990bae937ccbb70b0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:07 +0000
Subject: [PATCH 37/42] fix: a handle_request hook of a slave can refuse a
 request

---
 modbus_tk/modbus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 17a5a01..1185ae9 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -781,6 +781,8 @@ class Slave(object):
 
             except ModbusError as excpt:
                 LOGGER.debug(str(excpt))
+                # the function code is not known yet if a hook refuses the request
+                (function_code, ) = struct.unpack(">B", request_pdu[0:1])
                 call_hooks("modbus.Slave.on_exception", (self, function_code, excpt))
                 return struct.pack(">BB", function_code+128, excpt.get_exception_code())
 
-- 
2.43.0


From 149218a0b1c0caeb405e37f120bf4dd00e6a81a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:07 +0000
Subject: [PATCH 38/42] fix: a master is closed even if its after_close hook
 raises

---
 modbus_tk/modbus_rtu.py | 2 ++
 modbus_tk/modbus_tcp.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index ca81bd2..c2b4640 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -113,6 +113,8 @@ class RtuMaster(Master):
         """Close the serial port if still opened"""
         if self._serial.is_open:
             self._serial.close()
+            # closed, even if a hook fails
+            self._is_opened = False
             call_hooks("modbus_rtu.RtuMaster.after_close", (self, ))
         return True
 
diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index 216a95f..5173eb7 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -179,6 +179,8 @@ class TcpMaster(Master):
         if self._sock:
             call_hooks("modbus_tcp.TcpMaster.before_close", (self, ))
             self._sock.close()
+            # closed, even if a hook fails
+            self._is_opened = False
             call_hooks("modbus_tcp.TcpMaster.after_close", (self, ))
             self._sock = None
             return True
-- 
2.43.0


From 897ed519ecebc501c9539bb40eb7edd110134cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:03 +0000
Subject: [PATCH 39/42] fix: RtuMaster compares the local echo with the request

---
 modbus_tk/modbus_rtu.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index c2b4640..1e0d8ad 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -145,6 +145,9 @@ class RtuMaster(Master):
                 if not echo:
                     # the rest of the echo must not be taken for the response
                     raise ModbusInvalidResponseError("Only {0} bytes of local echo".format(echo_len))
+                if echo != request[echo_len:echo_len + len(echo)]:
+                    # something else came first: the echo must not be taken for the response
+                    raise ModbusInvalidResponseError("The local echo is not the request")
                 echo_len += len(echo)
 
     def _recv(self, expected_length=-1):
-- 
2.43.0


From 6030a6eaabebd6b59fcd5b4559442b71b5befa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:45 +0000
Subject: [PATCH 40/42] fix: the RPC port of a simulator is free again when it
 is closed

---
 modbus_tk/simulator.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index 6dcd189..e6da7aa 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -128,13 +128,20 @@ class RpcHandler(SocketServer.BaseRequestHandler):
         self.request.sendall(response)
 
 
+class RpcServer(SocketServer.TCPServer):
+    """The TCP server of the RPC calls"""
+
+    # the last calls must not keep the simulator from being started again
+    allow_reuse_address = True
+
+
 class RpcInterface(threading.Thread):
     """Manage RPC call over TCP/IP thanks to the SocketServer module"""
 
     def __init__(self):
         """Constructor"""
         super(RpcInterface, self).__init__()
-        self.rpc_server = SocketServer.TCPServer(("", 2711), RpcHandler)
+        self.rpc_server = RpcServer(("", 2711), RpcHandler)
 
     def run(self):
         """run the server and wait that it returns"""
@@ -145,6 +152,7 @@ class RpcInterface(threading.Thread):
         try:
             self.rpc_server.shutdown()
             self.join(1.0)
+            self.rpc_server.server_close()
         except Exception:
             LOGGER.warning("An error occurred while closing RPC interface")
 
-- 
2.43.0


From 915452f263b0c112f9d5f2fbee919d56215b45be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:45 +0000
Subject: [PATCH 41/42] fix: an RPC client which sends nothing no longer blocks
 the other ones and the end of the simulator

---
 modbus_tk/simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index e6da7aa..7d1e9b4 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -128,11 +128,13 @@ class RpcHandler(SocketServer.BaseRequestHandler):
         self.request.sendall(response)
 
 
-class RpcServer(SocketServer.TCPServer):
+class RpcServer(SocketServer.ThreadingTCPServer):
     """The TCP server of the RPC calls"""
 
     # the last calls must not keep the simulator from being started again
     allow_reuse_address = True
+    # a client which does not send its command must not block the others nor close()
+    daemon_threads = True
 
 
 class RpcInterface(threading.Thread):
-- 
2.43.0


From e6f6493e8557023165faa7cc4ab749810760b97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:45 +0000
Subject: [PATCH 42/42] fix: a simulator which has not been started can be
 closed

---
 modbus_tk/simulator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index 7d1e9b4..b30f928 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -152,8 +152,10 @@ class RpcInterface(threading.Thread):
     def close(self):
         """force the socket server to exit"""
         try:
-            self.rpc_server.shutdown()
-            self.join(1.0)
+            if self.is_alive():
+                # it would wait for ever for a thread which has not been started
+                self.rpc_server.shutdown()
+                self.join(1.0)
             self.rpc_server.server_close()
         except Exception:
             LOGGER.warning("An error occurred while closing RPC interface")
@@ -218,7 +220,8 @@ class ConsoleInterface(threading.Thread):
     def close(self):
         """terminates the thread"""
         self._go.clear()
-        self.join(1.0)
+        if self.is_alive():
+            self.join(1.0)
 
 
 class Simulator(object):
-- 
2.43.0

