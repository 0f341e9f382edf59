From 1016fd67140286b9f5e694b15058ba2f19b061d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:59 +0000
Subject: [PATCH 01/38] fix: operator precedence in Tlp.get_lower_address

---
 cocotbext/pcie/core/tlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/tlp.py b/cocotbext/pcie/core/tlp.py
index f5cd6ff..2d558dd 100644
--- a/cocotbext/pcie/core/tlp.py
+++ b/cocotbext/pcie/core/tlp.py
@@ -413,7 +413,7 @@ class Tlp:
 
     def get_lower_address(self):
         """Compute lower address field from address and first byte enable"""
-        return self.address & 0x7c + self.get_first_be_offset()
+        return (self.address & 0x7c) + self.get_first_be_offset()
 
     def has_data(self):
         """Return true if TLP has payload data"""
-- 
2.43.0


From 50de24a7d06cf0f59dfbbf319dce05f612881372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:59 +0000
Subject: [PATCH 02/38] fix: dead length and IO/configuration checks in
 Tlp.check

---
 cocotbext/pcie/core/tlp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/core/tlp.py b/cocotbext/pcie/core/tlp.py
index 2d558dd..71e786f 100644
--- a/cocotbext/pcie/core/tlp.py
+++ b/cocotbext/pcie/core/tlp.py
@@ -281,7 +281,7 @@ class Tlp:
             if self.length*4 != len(self.data):
                 print(f"TLP validation failed, length field does not match data: {self!r}")
                 ret = False
-            if 0 > self.length > 1024:
+            if not 1 <= self.length <= 1024:
                 print(f"TLP validation failed, length out of range: {self!r}")
                 ret = False
         if self.fmt_type in {TlpType.MEM_READ, TlpType.MEM_READ_64, TlpType.MEM_READ_LOCKED,
@@ -289,7 +289,7 @@ class Tlp:
             if self.length*4 > 0x1000 - (self.address & 0xfff):
                 print(f"TLP validation failed, request crosses 4K boundary: {self!r}")
                 ret = False
-        if self.fmt_type == {TlpType.CFG_READ_0, TlpType.CFG_WRITE_0, TlpType.CFG_READ_1,
+        if self.fmt_type in {TlpType.CFG_READ_0, TlpType.CFG_WRITE_0, TlpType.CFG_READ_1,
                 TlpType.CFG_WRITE_1, TlpType.IO_READ, TlpType.IO_WRITE}:
             if self.length != 1:
                 print(f"TLP validation failed, invalid length for IO or configuration request: {self!r}")
-- 
2.43.0


From 516b60bc781ad4ea01fdcb956cc2990b15e269fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:59 +0000
Subject: [PATCH 03/38] fix: include TH bit in TLP copy and comparison

---
 cocotbext/pcie/core/tlp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocotbext/pcie/core/tlp.py b/cocotbext/pcie/core/tlp.py
index 71e786f..62d57dc 100644
--- a/cocotbext/pcie/core/tlp.py
+++ b/cocotbext/pcie/core/tlp.py
@@ -219,6 +219,7 @@ class Tlp:
             self.type = tlp.type
             self.tc = tlp.tc
             self.ln = tlp.ln
+            self.th = tlp.th
             self.td = tlp.td
             self.ep = tlp.ep
             self.attr = tlp.attr
@@ -620,6 +621,7 @@ class Tlp:
                 self.type == other.type and
                 self.tc == other.tc and
                 self.ln == other.ln and
+                self.th == other.th and
                 self.td == other.td and
                 self.ep == other.ep and
                 self.attr == other.attr and
-- 
2.43.0


From 93ffcf206687321f751aafb146796d66bfa9304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:59 +0000
Subject: [PATCH 04/38] fix: MSI extended message data enable is bit 26 of
 register 0

---
 cocotbext/pcie/core/caps/msi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/caps/msi.py b/cocotbext/pcie/core/caps/msi.py
index ec91226..ee7b687 100644
--- a/cocotbext/pcie/core/caps/msi.py
+++ b/cocotbext/pcie/core/caps/msi.py
@@ -142,8 +142,9 @@ class MsiCapability(PciCap):
             if mask & 0x4:
                 self.msi_enable = bool(data & 1 << 16)
                 self.msi_multiple_message_enable = (data >> 20) & 0x7
+            if mask & 0x8:
                 if self.msi_extended_message_data_capable:
-                    self.msi_extended_message_data_enable = bool(data & 1 << 16)
+                    self.msi_extended_message_data_enable = bool(data & 1 << 26)
         elif reg == 1:
             # Message address
             self.msi_message_address = byte_mask_update(self.msi_message_address, mask, data & 0xfffffffc)
-- 
2.43.0


From 3c1fb0de3888046675c07947ff25acf477b6c8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:59 +0000
Subject: [PATCH 05/38] fix: return 0 for unimplemented MSI and MSI-X
 capability registers

---
 cocotbext/pcie/core/caps/msi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cocotbext/pcie/core/caps/msi.py b/cocotbext/pcie/core/caps/msi.py
index ee7b687..572105a 100644
--- a/cocotbext/pcie/core/caps/msi.py
+++ b/cocotbext/pcie/core/caps/msi.py
@@ -135,6 +135,8 @@ class MsiCapability(PciCap):
         elif reg == (5 if self.msi_64bit_address_capable else 4) and self.msi_per_vector_mask_capable:
             # Pending bits
             return self.msi_pending_bits & 0xffffffff
+        else:
+            return 0
 
     async def _write_register(self, reg, data, mask):
         if reg == 0:
@@ -221,6 +223,8 @@ class MsixCapability(PciCap):
             val = self.msix_pba_bar_indicator_register & 0x7
             val |= self.msix_pba_offset & 0xfffffff8
             return val
+        else:
+            return 0
 
     async def _write_register(self, reg, data, mask):
         if reg == 0:
-- 
2.43.0


From 9d5aa28285f92ed66ea68bffe255f50eac3d8f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:59 +0000
Subject: [PATCH 06/38] fix: field positions in link capabilities register

---
 cocotbext/pcie/core/caps/pcie.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cocotbext/pcie/core/caps/pcie.py b/cocotbext/pcie/core/caps/pcie.py
index 1fb910d..dd9acf3 100644
--- a/cocotbext/pcie/core/caps/pcie.py
+++ b/cocotbext/pcie/core/caps/pcie.py
@@ -295,10 +295,10 @@ class PcieCapability(PciCap):
         elif reg == 3:
             # Link capabilities
             val = self.max_link_speed & 0xf
-            val |= (self.max_link_width & 0x3f) >> 4
-            val |= (self.aspm_support & 0x3) >> 10
-            val |= (self.l0s_exit_latency & 0x7) >> 12
-            val |= (self.l1_exit_latency & 0x7) >> 15
+            val |= (self.max_link_width & 0x3f) << 4
+            val |= (self.aspm_support & 0x3) << 10
+            val |= (self.l0s_exit_latency & 0x7) << 12
+            val |= (self.l1_exit_latency & 0x7) << 15
             val |= bool(self.clock_power_management) << 18
             val |= bool(self.surprise_down_error_reporting_capability) << 19
             val |= bool(self.data_link_layer_link_active_reporting_capable) << 20
-- 
2.43.0


From d0af45e2a90ebd2a46e0917e7072b6c1dadd9118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:59 +0000
Subject: [PATCH 07/38] fix: byte enables and RW1C bits in slot status and link
 status 2 writes

---
 cocotbext/pcie/core/caps/pcie.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/core/caps/pcie.py b/cocotbext/pcie/core/caps/pcie.py
index dd9acf3..78a7b89 100644
--- a/cocotbext/pcie/core/caps/pcie.py
+++ b/cocotbext/pcie/core/caps/pcie.py
@@ -535,6 +535,7 @@ class PcieCapability(PciCap):
                     self.presence_detect_changed = False
                 if data & 1 << 20:
                     self.command_completed = False
+            if mask & 0x8:
                 if data & 1 << 24:
                     self.data_link_layer_state_changed = False
         elif reg == 7:
@@ -578,10 +579,12 @@ class PcieCapability(PciCap):
                 self.transmit_margin = self.transmit_margin & 0x1 | (data >> 7) & 0x6
                 self.enter_modified_compliance = bool(data & 1 << 10)
                 self.compliance_sos = bool(data & 1 << 11)
-                self.compliance_preset_deemphasis = (data >> 12) & 0xff
+                self.compliance_preset_deemphasis = (data >> 12) & 0xf
             # Link status 2
             if mask & 0x4:
-                self.link_equalization_8gt_request = bool(data & 1 << 21)
+                if data & 1 << 21:
+                    self.link_equalization_8gt_request = False
+            if mask & 0x8:
                 if data & 1 << 31:
                     self.drs_message_received = False
 
-- 
2.43.0


From 9d91c8b3892c0781ff800169473c188d8c3544e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:59 +0000
Subject: [PATCH 08/38] fix: lane equalization control registers start at
 register 3 and cover 32 lanes

---
 cocotbext/pcie/core/caps/pcie.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/cocotbext/pcie/core/caps/pcie.py b/cocotbext/pcie/core/caps/pcie.py
index 78a7b89..cde34d7 100644
--- a/cocotbext/pcie/core/caps/pcie.py
+++ b/cocotbext/pcie/core/caps/pcie.py
@@ -601,7 +601,7 @@ class PcieExtendedCapability(PciExtCap):
         super().__init__(*args, **kwargs)
         self.cap_id = PciExtCapId.EXP2
         self.cap_ver = 1
-        self.length = 4
+        self.length = 19
 
         # Secondary PCIe extended capability registers
         # Link control 3 register
@@ -639,16 +639,16 @@ class PcieExtendedCapability(PciExtCap):
         elif reg == 2:
             # Lane Error Status
             return self.lane_error_status & 0xffffffff
-        elif reg < 18:
+        elif 3 <= reg < 19:
             # Lane equalization control
-            val = self.downstream_port_8gt_transmitter_preset[(reg-2)*2] & 0xf
-            val |= (self.downstream_port_8gt_receiver_preset_hint[(reg-2)*2] & 0x7) << 4
-            val |= (self.upstream_port_8gt_transmitter_preset[(reg-2)*2] & 0xf) << 8
-            val |= (self.upstream_port_8gt_receiver_preset_hint[(reg-2)*2] & 0x7) << 12
-            val |= (self.downstream_port_8gt_transmitter_preset[(reg-2)*2+1] & 0xf) << 16
-            val |= (self.downstream_port_8gt_receiver_preset_hint[(reg-2)*2+1] & 0x7) << 20
-            val |= (self.upstream_port_8gt_transmitter_preset[(reg-2)*2+1] & 0xf) << 24
-            val |= (self.upstream_port_8gt_receiver_preset_hint[(reg-2)*2+1] & 0x7) << 28
+            val = self.downstream_port_8gt_transmitter_preset[(reg-3)*2] & 0xf
+            val |= (self.downstream_port_8gt_receiver_preset_hint[(reg-3)*2] & 0x7) << 4
+            val |= (self.upstream_port_8gt_transmitter_preset[(reg-3)*2] & 0xf) << 8
+            val |= (self.upstream_port_8gt_receiver_preset_hint[(reg-3)*2] & 0x7) << 12
+            val |= (self.downstream_port_8gt_transmitter_preset[(reg-3)*2+1] & 0xf) << 16
+            val |= (self.downstream_port_8gt_receiver_preset_hint[(reg-3)*2+1] & 0x7) << 20
+            val |= (self.upstream_port_8gt_transmitter_preset[(reg-3)*2+1] & 0xf) << 24
+            val |= (self.upstream_port_8gt_receiver_preset_hint[(reg-3)*2+1] & 0x7) << 28
             return val
         else:
             return 0
-- 
2.43.0


From 6ab0cc2ee84f982cac8de38dc8a4284adebe3500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:59 +0000
Subject: [PATCH 09/38] fix: BIST is in byte 3 of configuration register 3

---
 cocotbext/pcie/core/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index aa0e251..551ecd8 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -285,7 +285,7 @@ class Function:
             if mask & 1:
                 # Cache line size
                 self.cache_line_size = data & 0xff
-            if mask & 4:
+            if mask & 8:
                 # BIST
                 self.start_bist = bool(data & 1 << 30)
         elif reg == 15:
-- 
2.43.0


From 2640262b104298d762be685f2939638b682f7b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:59 +0000
Subject: [PATCH 10/38] fix: round MSI vector allocation up to a multiple of 32

---
 cocotbext/pcie/core/msi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/msi.py b/cocotbext/pcie/core/msi.py
index 6d97bb7..2d69f7d 100644
--- a/cocotbext/pcie/core/msi.py
+++ b/cocotbext/pcie/core/msi.py
@@ -57,7 +57,7 @@ class MsiRegion(Region):
             self.msi_vectors[vec.data] = vec
             self.msi_msg_limit += 1
 
-        self.msi_msg_limit += self.msi_msg_limit % 32
+        self.msi_msg_limit += -self.msi_msg_limit % 32
 
         return vecs
 
-- 
2.43.0


From aaac875185294ba00bafc64aa1b8d9cde6e259c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 11/38] fix: discard ACK/NAK DLLP exactly 2048 ahead of last
 acknowledged sequence number

---
 cocotbext/pcie/core/port.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/port.py b/cocotbext/pcie/core/port.py
index 5dd6197..c69422b 100644
--- a/cocotbext/pcie/core/port.py
+++ b/cocotbext/pcie/core/port.py
@@ -587,7 +587,7 @@ class Port:
             if (((self.next_transmit_seq-1) & 0xfff) - dllp.seq) & 0xfff > 2048:
                 self.log.warning("Received ACK/NAK DLLP for future TLP, discarding (seq %d, next TX %d, ACK %d)",
                     dllp.seq, self.next_transmit_seq, self.ackd_seq)
-            elif (dllp.seq - self.ackd_seq) & 0xfff > 2048:
+            elif (dllp.seq - self.ackd_seq) & 0xfff >= 2048:
                 self.log.warning("Received ACK/NAK DLLP for previously-ACKed TLP, discarding (seq %d, next TX %d, ACK %d)",
                     dllp.seq, self.next_transmit_seq, self.ackd_seq)
             else:
-- 
2.43.0


From 3e111e99035dcf0eb7697fb26d7ef7f3473379d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 12/38] fix: duplicate TLP window is 2048 sequence numbers

---
 cocotbext/pcie/core/port.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/port.py b/cocotbext/pcie/core/port.py
index c69422b..9996871 100644
--- a/cocotbext/pcie/core/port.py
+++ b/cocotbext/pcie/core/port.py
@@ -560,7 +560,7 @@ class Port:
                 pkt = Tlp(pkt)
                 self.fc_state[self.classify_tlp_vc(pkt)].rx_process_tlp_fc(pkt)
                 self.rx_queue.put_nowait(pkt)
-            elif (self.next_recv_seq - pkt.seq) & 0xfff < 2048:
+            elif (self.next_recv_seq - pkt.seq) & 0xfff <= 2048:
                 self.log.warning("Received duplicate TLP, discarding (seq %d, expecting %d)", pkt.seq, self.next_recv_seq)
                 self.stop_ack_latency_timer()
                 self.send_ack.set()
-- 
2.43.0


From 98d9ae0d70cf5c4d77e603fb6403a11ee7617b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 13/38] fix: send flow control updates on the virtual channel
 they describe

---
 cocotbext/pcie/core/port.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cocotbext/pcie/core/port.py b/cocotbext/pcie/core/port.py
index 9996871..d0117e7 100644
--- a/cocotbext/pcie/core/port.py
+++ b/cocotbext/pcie/core/port.py
@@ -462,14 +462,14 @@ class Port:
                 #  - FC init is not done AND no TLPs are queued for transmit
                 if self.send_fc.is_set():
                     # Send FC update DLLP
-                    for fc_ch in self.fc_state:
+                    for vc, fc_ch in enumerate(self.fc_state):
                         if not fc_ch.active or not fc_ch.fi2:
                             continue
 
                         sim_time = get_sim_time()
                         if fc_ch.next_fc_p_tx <= sim_time:
                             pkt = Dllp()
-                            pkt.vc = self.fc_init_vc
+                            pkt.vc = vc
                             pkt.type = DllpType.UPDATE_FC_P
                             pkt.hdr_fc = fc_ch.ph.rx_credits_allocated
                             pkt.data_fc = fc_ch.pd.rx_credits_allocated
@@ -477,7 +477,7 @@ class Port:
                             break
                         if fc_ch.next_fc_np_tx <= sim_time:
                             pkt = Dllp()
-                            pkt.vc = self.fc_init_vc
+                            pkt.vc = vc
                             pkt.type = DllpType.UPDATE_FC_NP
                             pkt.hdr_fc = fc_ch.nph.rx_credits_allocated
                             pkt.data_fc = fc_ch.npd.rx_credits_allocated
@@ -485,7 +485,7 @@ class Port:
                             break
                         if fc_ch.next_fc_cpl_tx <= sim_time:
                             pkt = Dllp()
-                            pkt.vc = self.fc_init_vc
+                            pkt.vc = vc
                             pkt.type = DllpType.UPDATE_FC_CPL
                             pkt.hdr_fc = fc_ch.cplh.rx_credits_allocated
                             pkt.data_fc = fc_ch.cpld.rx_credits_allocated
-- 
2.43.0


From 63f841b6fb4fe4d4b9e61e94259338935478cf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 14/38] fix: 32 bit BARs do not decode addresses above 4 GB

---
 cocotbext/pcie/core/function.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index 551ecd8..3862e55 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -386,6 +386,11 @@ class Function:
 
                     bar += 1
 
+                else:
+                    # 32 bit BAR, does not decode addresses above 4 GB
+
+                    bar_mask |= 0xffffffff00000000
+
                 if not io and (addr ^ bar_val) & bar_mask == 0:
                     return (orig_bar, addr & ~bar_mask)
 
-- 
2.43.0


From 6444a230d2e97fdb5d79fd7c80041dbaad5f5312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 15/38] fix: match 64 bit BARs of 4 GB and larger

---
 cocotbext/pcie/core/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index 3862e55..8ed42ab 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -362,7 +362,7 @@ class Function:
             orig_bar = bar
             bar += 1
 
-            if bar_mask == 0:
+            if bar_mask == 0 and not bar_val & 4:
                 # unimplemented BAR
                 continue
 
-- 
2.43.0


From 084e7a70027a94fd7eed33e59cb6276c296ccc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 16/38] fix: update capabilities pointer when a capability is
 deregistered

---
 cocotbext/pcie/core/function.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index 8ed42ab..483ede4 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -308,14 +308,18 @@ class Function:
     def register_capability(self, cap, offset=None):
         cap.parent = self
         self.capabilities.register(cap, offset)
+        self._update_capabilities_ptr()
+
+    def deregister_capability(self, cap):
+        self.capabilities.deregister(cap)
+        self._update_capabilities_ptr()
+
+    def _update_capabilities_ptr(self):
         if self.capabilities.list:
             self.capabilities_ptr = self.capabilities.list[0].offset*4
         else:
             self.capabilities_ptr = 0
 
-    def deregister_capability(self, cap):
-        self.capabilities.deregister(cap)
-
     async def read_extended_capability_register(self, reg):
         return await self.ext_capabilities.read_register(reg)
 
-- 
2.43.0


From e6dd591592aaa218c1ee114c0e91d48da97b5430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 17/38] fix: overlap check and list termination in capability
 list

---
 cocotbext/pcie/core/caps/common.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/core/caps/common.py b/cocotbext/pcie/core/caps/common.py
index 91f08b5..aab461e 100644
--- a/cocotbext/pcie/core/caps/common.py
+++ b/cocotbext/pcie/core/caps/common.py
@@ -196,7 +196,7 @@ class PciCapList:
         else:
             cap.offset = self.start
             for c in self.list:
-                if c.offset < cap.offset+cap.length-1 and cap.offset <= c.offset+c.length-1:
+                if c.offset <= cap.offset+cap.length-1 and cap.offset <= c.offset+c.length-1:
                     cap.offset = c.offset+c.length
 
         self.list.append(cap)
@@ -221,7 +221,9 @@ class PciCapList:
         # update list next cap pointers
         for k in range(1, len(self.list)):
             self.list[k-1].next_cap = self.list[k].offset*4
-            self.list[k].next_cap = 0
+
+        if self.list:
+            self.list[-1].next_cap = 0
 
 
 class PciExtCapList(PciCapList):
-- 
2.43.0


From 7ddc1fe5cce202883a68d3736495006b49757da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:57 +0000
Subject: [PATCH 18/38] fix: save and restore upper half of 64 bit BAR while
 sizing

---
 cocotbext/pcie/core/pci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index dd9ccc0..32d47a3 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -1101,7 +1101,7 @@ class PciDevice:
                     raise Exception("Invalid BAR configuration")
 
                 # read adjacent BAR
-                orig_bar2 = await self.config_read_dword(0x010+bar*4)
+                orig_bar2 = await self.config_read_dword(0x010+(bar+1)*4)
                 await self.config_write_dword(0x010+(bar+1)*4, 0xffffffff)
                 val2 = await self.config_read_dword(0x010+(bar+1)*4)
                 await self.config_write_dword(0x010+(bar+1)*4, orig_bar2)
-- 
2.43.0


From 54395d64488dd4a56a566a456e6333cbe500ac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:57 +0000
Subject: [PATCH 19/38] fix: PciDevice bus, device and function number setters

---
 cocotbext/pcie/core/pci.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index 32d47a3..422e8e3 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -365,7 +365,7 @@ class PciDevice:
 
     @bus_num.setter
     def bus_num(self, value):
-        self._pcie_id.bus = value
+        self._pcie_id = self._pcie_id._replace(bus=value)
 
     @property
     def device_num(self):
@@ -373,7 +373,7 @@ class PciDevice:
 
     @device_num.setter
     def device_num(self, value):
-        self._pcie_id.device = value
+        self._pcie_id = self._pcie_id._replace(device=value)
 
     @property
     def function_num(self):
@@ -381,7 +381,7 @@ class PciDevice:
 
     @function_num.setter
     def function_num(self, value):
-        self._pcie_id.function = value
+        self._pcie_id = self._pcie_id._replace(function=value)
 
     def is_enabled(self):
         return self.enable_cnt > 0
-- 
2.43.0


From ea4c4d46c4d2b502dc722c3309e7db406f12a8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:57 +0000
Subject: [PATCH 20/38] fix: align bridge window base so that it does not cover
 resources of other devices

---
 cocotbext/pcie/core/pci.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index 422e8e3..6108026 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -234,11 +234,11 @@ class PciBus:
             await dev.assign_resources()
 
             if dev.subordinate:
-                dev.io_base = self.bridge.io_limit
+                dev.io_base = align(self.bridge.io_limit, 0xfff)
                 dev.io_limit = dev.io_base
-                dev.mem_base = self.bridge.mem_limit
+                dev.mem_base = align(self.bridge.mem_limit, 0xfffff)
                 dev.mem_limit = dev.mem_base
-                dev.prefetchable_mem_base = self.bridge.prefetchable_mem_limit
+                dev.prefetchable_mem_base = align(self.bridge.prefetchable_mem_limit, 0xfffff)
                 dev.prefetchable_mem_limit = dev.prefetchable_mem_base
 
                 await dev.subordinate.assign_resources()
-- 
2.43.0


From f625f94a7a7255f2503f2598f3d54ccab93e1902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:57 +0000
Subject: [PATCH 21/38] fix: allocate enough vectors when switching between MSI
 and MSI-X

---
 cocotbext/pcie/core/pci.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index 6108026..3b35b5e 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -841,7 +841,7 @@ class PciDevice:
         await self.msi_set_enable(False)
         self.msi_enabled = True
 
-        if not self.msi_vectors:
+        if len(self.msi_vectors) < 32:
             self.msi_vectors = self.rc.msi_alloc_vectors(32)
 
         msg_ctrl = await self.capability_read_dword(PciCapId.MSI, 0)
@@ -965,7 +965,7 @@ class PciDevice:
         self.rc.log.info("pci %s: MSI-X PBA BIR: %d", self.pcie_id, pba_bir)
         self.rc.log.info("pci %s: MSI-X PBA offset: 0x%08x", self.pcie_id, pba_offset)
 
-        if not self.msi_vectors:
+        if len(self.msi_vectors) < table_size:
             self.msi_vectors = self.rc.msi_alloc_vectors(table_size)
 
         # configure vectors
-- 
2.43.0


From 85f1229fcd1b9ac689f815f91e97261f16d4b8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 22/38] fix: Tlp.__bytes__ must return bytes

---
 cocotbext/pcie/core/tlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/tlp.py b/cocotbext/pcie/core/tlp.py
index 62d57dc..b8a0bc8 100644
--- a/cocotbext/pcie/core/tlp.py
+++ b/cocotbext/pcie/core/tlp.py
@@ -669,4 +669,4 @@ class Tlp:
         )
 
     def __bytes__(self):
-        return self.pack()
+        return bytes(self.pack())
-- 
2.43.0


From 2a4263304b044dbb654d750b796a782d6f751847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 23/38] fix: discard completions that do not belong to an
 outstanding request

---
 cocotbext/pcie/core/function.py | 8 ++++++++
 cocotbext/pcie/core/rc.py       | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index 483ede4..028f2b5 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -457,6 +457,11 @@ class Function:
     async def handle_tlp(self, tlp):
         if tlp.fmt_type in {TlpType.CPL, TlpType.CPL_DATA, TlpType.CPL_LOCKED, TlpType.CPL_LOCKED_DATA}:
             # completion
+            if tlp.tag >= len(self.tag_active) or not self.tag_active[tlp.tag]:
+                # no outstanding request with this tag
+                self.log.warning("Unexpected completion: %r", tlp)
+                tlp.release_fc()
+                return
             self.rx_cpl_queues[tlp.tag].put_nowait(tlp)
             self.rx_cpl_sync[tlp.tag].set()
         elif tlp.fmt_type in self.rx_tlp_handler:
@@ -510,6 +515,9 @@ class Function:
 
     def release_tag(self, tag):
         assert self.tag_active[tag]
+        while not self.rx_cpl_queues[tag].empty():
+            # discard completions that were not consumed by the request
+            self.rx_cpl_queues[tag].get_nowait().release_fc()
         self.tag_active[tag] = False
         self.tag_release.set()
 
diff --git a/cocotbext/pcie/core/rc.py b/cocotbext/pcie/core/rc.py
index 8c905ca..d7faa09 100644
--- a/cocotbext/pcie/core/rc.py
+++ b/cocotbext/pcie/core/rc.py
@@ -207,6 +207,11 @@ class RootComplex(Switch):
 
     async def handle_tlp(self, tlp):
         if tlp.fmt_type in {TlpType.CPL, TlpType.CPL_DATA, TlpType.CPL_LOCKED, TlpType.CPL_LOCKED_DATA}:
+            if tlp.tag >= len(self.tag_active) or not self.tag_active[tlp.tag]:
+                # no outstanding request with this tag
+                self.log.warning("Unexpected completion: %r", tlp)
+                tlp.release_fc()
+                return
             self.rx_cpl_queues[tlp.tag].put_nowait(tlp)
             self.rx_cpl_sync[tlp.tag].set()
         elif tlp.fmt_type in self.rx_tlp_handler:
@@ -258,6 +263,9 @@ class RootComplex(Switch):
 
     def release_tag(self, tag):
         assert self.tag_active[tag]
+        while not self.rx_cpl_queues[tag].empty():
+            # discard completions that were not consumed by the request
+            self.rx_cpl_queues[tag].get_nowait().release_fc()
         self.tag_active[tag] = False
         self.tag_release.set()
 
-- 
2.43.0


From 92e2ad76ee9f933b819eeeb97565350690ad1385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 24/38] fix: lower address of completions for zero-length reads

---
 cocotbext/pcie/core/tlp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/core/tlp.py b/cocotbext/pcie/core/tlp.py
index b8a0bc8..01e2c05 100644
--- a/cocotbext/pcie/core/tlp.py
+++ b/cocotbext/pcie/core/tlp.py
@@ -384,7 +384,10 @@ class Tlp:
 
     def get_first_be_offset(self):
         """Offset to first transferred byte from first byte enable"""
-        if self.first_be & 0x7 == 0:
+        if self.first_be & 0xf == 0:
+            # zero-length request
+            return 0
+        elif self.first_be & 0x7 == 0:
             return 3
         elif self.first_be & 0x3 == 0:
             return 2
@@ -399,7 +402,7 @@ class Tlp:
             be = self.first_be
         else:
             be = self.last_be
-        if be & 0xf == 0x1:
+        if be & 0xf == 0x1 or be & 0xf == 0:
             return 3
         elif be & 0xe == 0x2:
             return 2
-- 
2.43.0


From 91acc4a792f3d5f7f7ff7a5cbf5c979fab97c39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 25/38] fix: AER root error command bit order and width of
 first error pointer

---
 cocotbext/pcie/core/caps/aer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cocotbext/pcie/core/caps/aer.py b/cocotbext/pcie/core/caps/aer.py
index 45c99d8..e6fdb58 100644
--- a/cocotbext/pcie/core/caps/aer.py
+++ b/cocotbext/pcie/core/caps/aer.py
@@ -258,7 +258,7 @@ class AerExtendedCapability(PciExtCap):
             return val
         elif reg == 6:
             # Advanced error capabilities and control
-            val = self.first_error_pointer & 0xf
+            val = self.first_error_pointer & 0x1f
             val |= bool(self.ecrc_generation_capable) << 5
             val |= bool(self.ecrc_generation_enable) << 6
             val |= bool(self.ecrc_check_capable) << 7
@@ -273,9 +273,9 @@ class AerExtendedCapability(PciExtCap):
             return self.header_log[reg-7] & 0xffffffff
         elif reg == 11:
             # Root error command
-            val = bool(self.fatal_error_reporting_enable)
+            val = bool(self.correctable_error_reporting_enable)
             val |= bool(self.nonfatal_error_reporting_enable) << 1
-            val |= bool(self.correctable_error_reporting_enable) << 2
+            val |= bool(self.fatal_error_reporting_enable) << 2
             return val
         elif reg == 12:
             # Root error status
@@ -428,9 +428,9 @@ class AerExtendedCapability(PciExtCap):
         elif reg == 11:
             # Root error command
             if mask & 0x1:
-                self.fatal_error_reporting_enable = bool(data & 1 << 0)
+                self.correctable_error_reporting_enable = bool(data & 1 << 0)
                 self.nonfatal_error_reporting_enable = bool(data & 1 << 1)
-                self.correctable_error_reporting_enable = bool(data & 1 << 2)
+                self.fatal_error_reporting_enable = bool(data & 1 << 2)
             pass
         elif reg == 12:
             # Root error status
-- 
2.43.0


From 7ea3f4e3eaf8386a282319ace85faba274a4c099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 26/38] fix: register extended capabilities of device models in
 the extended capability list

---
 cocotbext/pcie/intel/ptile/ptile_model.py | 4 ++--
 cocotbext/pcie/intel/s10/s10_model.py     | 4 ++--
 cocotbext/pcie/xilinx/us/us_model.py      | 4 ++--
 cocotbext/pcie/xilinx/us/usp_model.py     | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/cocotbext/pcie/intel/ptile/ptile_model.py b/cocotbext/pcie/intel/ptile/ptile_model.py
index d994702..c9a3e16 100644
--- a/cocotbext/pcie/intel/ptile/ptile_model.py
+++ b/cocotbext/pcie/intel/ptile/ptile_model.py
@@ -88,13 +88,13 @@ class PTilePcieFunction(Endpoint):
 
         # PCIe extended capabilities
         self.aer_ext_cap = AerExtendedCapability()
-        self.register_capability(self.aer_ext_cap, offset=0x40)
+        self.register_extended_capability(self.aer_ext_cap, offset=0x40)
 
         # VC 0x52
         # ARI 0x5e
 
         self.pcie_ext_cap = PcieExtendedCapability()
-        self.register_capability(self.pcie_ext_cap, offset=0x62)
+        self.register_extended_capability(self.pcie_ext_cap, offset=0x62)
 
         # PHY16 0x6e
         # LM 0x7a
diff --git a/cocotbext/pcie/intel/s10/s10_model.py b/cocotbext/pcie/intel/s10/s10_model.py
index 824d4a8..dffcab5 100644
--- a/cocotbext/pcie/intel/s10/s10_model.py
+++ b/cocotbext/pcie/intel/s10/s10_model.py
@@ -75,13 +75,13 @@ class S10PcieFunction(Endpoint):
 
         # PCIe extended capabilities
         self.aer_ext_cap = AerExtendedCapability()
-        self.register_capability(self.aer_ext_cap, offset=0x40)
+        self.register_extended_capability(self.aer_ext_cap, offset=0x40)
 
         # VC 0x4e
         # ARI 0x5e
 
         self.pcie_ext_cap = PcieExtendedCapability()
-        self.register_capability(self.pcie_ext_cap, offset=0x62)
+        self.register_extended_capability(self.pcie_ext_cap, offset=0x62)
 
         # SRIOV 0x6e
         # TPH 0x7e
diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index fc72913..a47e0e8 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -86,7 +86,7 @@ class UltraScalePcieFunction(Endpoint):
 
         # PCIe extended capabilities
         self.aer_ext_cap = AerExtendedCapability()
-        self.register_capability(self.aer_ext_cap, offset=0x40)
+        self.register_extended_capability(self.aer_ext_cap, offset=0x40)
 
         # ARI 0x50
         # DSN 0x54
@@ -97,7 +97,7 @@ class UltraScalePcieFunction(Endpoint):
         # TPH 0x9d
 
         self.pcie_ext_cap = PcieExtendedCapability()
-        self.register_capability(self.pcie_ext_cap, offset=0xC0)
+        self.register_extended_capability(self.pcie_ext_cap, offset=0xC0)
 
         # VSEC 0xd0 (MCAP)
         # VC 0xf0
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 924d5e5..7591f2d 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -125,14 +125,14 @@ class UltraScalePlusPcieFunction(Endpoint):
 
         # PCIe extended capabilities
         self.aer_ext_cap = AerExtendedCapability()
-        self.register_capability(self.aer_ext_cap, offset=0x40)
+        self.register_extended_capability(self.aer_ext_cap, offset=0x40)
 
         # SRIOV 0x50
         # ARI 0x60
         # DSN 0x68
 
         self.pcie_ext_cap = PcieExtendedCapability()
-        self.register_capability(self.pcie_ext_cap, offset=0x70)
+        self.register_extended_capability(self.pcie_ext_cap, offset=0x70)
 
         # VC 0x80
         # TPH 0x88
-- 
2.43.0


From 76e35e8093c7743da982b46076a5e6bdf79edd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 27/38] fix: position of downstream component presence in link
 status 2

---
 cocotbext/pcie/core/caps/pcie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/caps/pcie.py b/cocotbext/pcie/core/caps/pcie.py
index cde34d7..09db30e 100644
--- a/cocotbext/pcie/core/caps/pcie.py
+++ b/cocotbext/pcie/core/caps/pcie.py
@@ -449,7 +449,7 @@ class PcieCapability(PciCap):
             val |= bool(self.retimer_presence_detected) << 22
             val |= bool(self.two_retimers_presence_detected) << 23
             val |= (self.crosslink_resolution & 0x3) << 24
-            val |= (self.downstream_component_presence & 0x7) << 27
+            val |= (self.downstream_component_presence & 0x7) << 28
             val |= bool(self.drs_message_received) << 31
             return val
         else:
-- 
2.43.0


From 5c761a99c1b8e8167b6d4d76069cd017129b1030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:53 +0000
Subject: [PATCH 28/38] fix: keep request completed flag when copying Tlp_us

---
 cocotbext/pcie/xilinx/us/tlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/xilinx/us/tlp.py b/cocotbext/pcie/xilinx/us/tlp.py
index fd7391d..ea610bf 100644
--- a/cocotbext/pcie/xilinx/us/tlp.py
+++ b/cocotbext/pcie/xilinx/us/tlp.py
@@ -120,7 +120,7 @@ class Tlp_us(Tlp):
             self.discontinue = tlp.discontinue
             self.seq_num = tlp.seq_num
             self.error_code = tlp.error_code
-            self.request_completed == tlp.request_completed
+            self.request_completed = tlp.request_completed
 
     def pack_us_cq(self):
         pkt = UsPcieFrame()
-- 
2.43.0


From aa495e1b32562eaf5bf0028e78a01e21b401af5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:59 +0000
Subject: [PATCH 29/38] fix: position of function number in second segment of
 H-tile streams

---
 cocotbext/pcie/intel/s10/interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/intel/s10/interface.py b/cocotbext/pcie/intel/s10/interface.py
index fab4a5e..13d5aa4 100644
--- a/cocotbext/pcie/intel/s10/interface.py
+++ b/cocotbext/pcie/intel/s10/interface.py
@@ -447,7 +447,7 @@ class S10PcieSource(S10PcieBase):
                         transaction.sop |= 1 << seg
 
                     transaction.bar_range |= frame.bar_range << seg*3
-                    transaction.func_num |= frame.func_num << seg*3
+                    transaction.func_num |= frame.func_num << seg*2
                     if frame.vf_num is not None:
                         transaction.vf_active |= 1 << seg
                         transaction.vf_num |= frame.vf_num << seg*11
@@ -612,7 +612,7 @@ class S10PcieSink(S10PcieBase):
                         dword_count += count
 
                     frame.bar_range = (int(sample.bar_range) >> seg*3) & 0x7
-                    frame.func_num = (int(sample.func_num) >> seg*3) & 0x7
+                    frame.func_num = (int(sample.func_num) >> seg*2) & 0x3
                     if int(sample.vf_active) & (1 << seg):
                         frame.vf_num = (int(sample.vf_num) >> seg*11) & 0x7ff
                     frame.err = (int(sample.err) >> seg) & 0x1
-- 
2.43.0


From dc2e8b7851d222a7ade800ca274a64deddd94edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:33 +0000
Subject: [PATCH 30/38] fix: window limits of root complex bridge are inclusive

---
 cocotbext/pcie/core/rc.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cocotbext/pcie/core/rc.py b/cocotbext/pcie/core/rc.py
index d7faa09..6777a79 100644
--- a/cocotbext/pcie/core/rc.py
+++ b/cocotbext/pcie/core/rc.py
@@ -81,11 +81,11 @@ class RootComplex(Switch):
         self.prefetchable_mem_limit = self.prefetchable_mem_base
 
         self.upstream_bridge.io_base = self.io_base
-        self.upstream_bridge.io_limit = self.io_limit
+        self.upstream_bridge.io_limit = self.io_limit - 1
         self.upstream_bridge.mem_base = self.mem_base
-        self.upstream_bridge.mem_limit = self.mem_limit
+        self.upstream_bridge.mem_limit = self.mem_limit - 1
         self.upstream_bridge.prefetchable_mem_base = self.prefetchable_mem_base
-        self.upstream_bridge.prefetchable_mem_limit = self.prefetchable_mem_limit
+        self.upstream_bridge.prefetchable_mem_limit = self.prefetchable_mem_limit - 1
 
         self._max_payload_size = 0
         self._max_payload_size_supported = 5
@@ -896,11 +896,11 @@ class RootComplex(Switch):
         self.prefetchable_mem_limit = self.host_bridge.prefetchable_mem_limit
 
         self.upstream_bridge.io_base = self.io_base
-        self.upstream_bridge.io_limit = self.io_limit
+        self.upstream_bridge.io_limit = self.io_limit - 1
         self.upstream_bridge.mem_base = self.mem_base
-        self.upstream_bridge.mem_limit = self.mem_limit
+        self.upstream_bridge.mem_limit = self.mem_limit - 1
         self.upstream_bridge.prefetchable_mem_base = self.prefetchable_mem_base
-        self.upstream_bridge.prefetchable_mem_limit = self.prefetchable_mem_limit
+        self.upstream_bridge.prefetchable_mem_limit = self.prefetchable_mem_limit - 1
 
         self.log.info("Enumeration complete")
         self.log.info("Device tree: \n%s", self.host_bridge.to_str().strip())
-- 
2.43.0


From a1eee061cb10171e625f75da6a98a4507230bde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:56 +0000
Subject: [PATCH 31/38] fix: device lookup in capability accesses of root
 complex

---
 cocotbext/pcie/core/rc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/core/rc.py b/cocotbext/pcie/core/rc.py
index 6777a79..56db5ea 100644
--- a/cocotbext/pcie/core/rc.py
+++ b/cocotbext/pcie/core/rc.py
@@ -679,7 +679,7 @@ class RootComplex(Switch):
         await self.config_write_qwords(dev, addr, [data], byteorder, timeout, timeout_unit)
 
     async def capability_read(self, dev, cap_id, addr, length, timeout=0, timeout_unit='ns'):
-        ti = self.host_bridge.find_child_dev(dev)
+        ti = self.host_bridge.find_device(dev)
 
         if not ti:
             raise Exception("Device not found")
@@ -717,7 +717,7 @@ class RootComplex(Switch):
         return (await self.capability_read_qwords(dev, cap_id, addr, 1, byteorder, timeout, timeout_unit))[0]
 
     async def capability_write(self, dev, cap_id, addr, data, timeout=0, timeout_unit='ns'):
-        ti = self.host_bridge.find_child_dev(dev)
+        ti = self.host_bridge.find_device(dev)
 
         if not ti:
             raise Exception("Device not found")
-- 
2.43.0


From d9e7c48dbf7ae929cecea4b1b8158eddf1642ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:56 +0000
Subject: [PATCH 32/38] fix: await enabling of bus mastering on bridge

---
 cocotbext/pcie/core/pci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index 3b35b5e..7835838 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -543,7 +543,7 @@ class PciDevice:
 
         if self.is_enabled():
             if not self.is_busmaster:
-                self.set_master()
+                await self.set_master()
             return
 
         await self.enable_device()
-- 
2.43.0


From d68330b94b7df80eef1deb4f9d982d146a211b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:00 +0000
Subject: [PATCH 33/38] fix: do not clear device status bits when changing
 device control

---
 cocotbext/pcie/core/pci.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index 7835838..1b11ee5 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -756,7 +756,7 @@ class PciDevice:
             self.pcie_id, 128 << parent_mps, 128 << mps, 128 << self.pcie_mpss)
 
     async def get_readrq(self):
-        devctl = await self.capability_read_dword(PciCapId.EXP, 0x8)
+        devctl = await self.capability_read_word(PciCapId.EXP, 0x8)
 
         return (devctl >> 12) & 0x7
 
@@ -764,15 +764,15 @@ class PciDevice:
         if readrq < 0 or readrq > 5:
             raise ValueError()
 
-        old_devctl = await self.capability_read_dword(PciCapId.EXP, 0x8)
+        old_devctl = await self.capability_read_word(PciCapId.EXP, 0x8)
 
         devctl = old_devctl & ~(0x7000) | (readrq << 12)
 
         if devctl != old_devctl:
-            await self.capability_write_dword(PciCapId.EXP, 0x8, devctl)
+            await self.capability_write_word(PciCapId.EXP, 0x8, devctl)
 
     async def get_mps(self):
-        devctl = await self.capability_read_dword(PciCapId.EXP, 0x8)
+        devctl = await self.capability_read_word(PciCapId.EXP, 0x8)
 
         return (devctl >> 5) & 0x7
 
@@ -780,12 +780,12 @@ class PciDevice:
         if mps < 0 or mps > 5 or mps > self.pcie_mpss:
             raise ValueError()
 
-        old_devctl = await self.capability_read_dword(PciCapId.EXP, 0x8)
+        old_devctl = await self.capability_read_word(PciCapId.EXP, 0x8)
 
         devctl = old_devctl & ~(0x00e0) | (mps << 5)
 
         if devctl != old_devctl:
-            await self.capability_write_dword(PciCapId.EXP, 0x8, devctl)
+            await self.capability_write_word(PciCapId.EXP, 0x8, devctl)
 
     async def configure_extended_tags(self):
         if not self.is_pcie():
@@ -794,11 +794,11 @@ class PciDevice:
         if not self.pcie_devcap_reg & (1 << 5):
             return
 
-        devctl = await self.capability_read_dword(PciCapId.EXP, 0x8)
+        devctl = await self.capability_read_word(PciCapId.EXP, 0x8)
 
         if not devctl & (1 << 8):
             self.rc.log.info("pci %s: enabling Extended Tags", self.pcie_id)
-            await self.capability_write_dword(PciCapId.EXP, 0x8, devctl | (1 << 8))
+            await self.capability_write_word(PciCapId.EXP, 0x8, devctl | (1 << 8))
 
     async def configure_serr(self):
         if self.header_type != 0x01:
-- 
2.43.0


From 33a5a31261e0b65785e7eb3e49c356014a43c8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:48 +0000
Subject: [PATCH 34/38] fix: UltraScale models: completer function and BAR
 aperture of the function that claims a request

---
 cocotbext/pcie/xilinx/us/us_model.py  | 12 ++++++------
 cocotbext/pcie/xilinx/us/usp_model.py | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index a47e0e8..76ca028 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -896,7 +896,7 @@ class UltraScalePcieDevice(Device):
 
                     tlp = Tlp_us(tlp)
                     tlp.bar_id = bar[0]
-                    tlp.bar_aperture = (~self.functions[0].bar_mask[bar[0]] & 0xffffffff).bit_length()
+                    tlp.bar_aperture = (~f.bar_mask[bar[0]] & 0xffffffff).bit_length()
                     tlp.completer_id = f.pcie_id
                     self.cq_queue.put_nowait(tlp)
 
@@ -916,12 +916,12 @@ class UltraScalePcieDevice(Device):
 
                     tlp = Tlp_us(tlp)
                     tlp.bar_id = bar[0]
-                    if self.functions[0].bar[bar[0]] & 4:
-                        tlp.bar_aperture = (~(self.functions[0].bar_mask[bar[0]] |
-                            (self.functions[0].bar_mask[bar[0]+1] << 32)) & 0xffffffffffffffff).bit_length()
+                    if f.bar[bar[0]] & 4:
+                        tlp.bar_aperture = (~(f.bar_mask[bar[0]] |
+                            (f.bar_mask[bar[0]+1] << 32)) & 0xffffffffffffffff).bit_length()
                     else:
-                        tlp.bar_aperture = (~self.functions[0].bar_mask[bar[0]] & 0xffffffff).bit_length()
-                    tlp.completer_id = tlp.completer_id._replace(bus=self.bus_num)
+                        tlp.bar_aperture = (~f.bar_mask[bar[0]] & 0xffffffff).bit_length()
+                    tlp.completer_id = f.pcie_id
                     self.cq_queue.put_nowait(tlp)
 
                     return
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 7591f2d..78f1d6b 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1040,8 +1040,8 @@ class UltraScalePlusPcieDevice(Device):
 
                     tlp = Tlp_us(tlp)
                     tlp.bar_id = bar[0]
-                    tlp.bar_aperture = (~self.functions[0].bar_mask[bar[0]] & 0xffffffff).bit_length()
-                    tlp.completer_id = tlp.completer_id._replace(bus=self.bus_num)
+                    tlp.bar_aperture = (~f.bar_mask[bar[0]] & 0xffffffff).bit_length()
+                    tlp.completer_id = f.pcie_id
                     self.cq_queue.put_nowait(tlp)
 
                     return
@@ -1060,11 +1060,11 @@ class UltraScalePlusPcieDevice(Device):
 
                     tlp = Tlp_us(tlp)
                     tlp.bar_id = bar[0]
-                    if self.functions[0].bar[bar[0]] & 4:
-                        tlp.bar_aperture = (~(self.functions[0].bar_mask[bar[0]] |
-                            (self.functions[0].bar_mask[bar[0]+1] << 32)) & 0xffffffffffffffff).bit_length()
+                    if f.bar[bar[0]] & 4:
+                        tlp.bar_aperture = (~(f.bar_mask[bar[0]] |
+                            (f.bar_mask[bar[0]+1] << 32)) & 0xffffffffffffffff).bit_length()
                     else:
-                        tlp.bar_aperture = (~self.functions[0].bar_mask[bar[0]] & 0xffffffff).bit_length()
+                        tlp.bar_aperture = (~f.bar_mask[bar[0]] & 0xffffffff).bit_length()
                     tlp.completer_id = f.pcie_id
                     self.cq_queue.put_nowait(tlp)
 
-- 
2.43.0


From 6ded54ef8fa7273b7eb806b899c7d77dc3623cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:48 +0000
Subject: [PATCH 35/38] fix: Intel models: requests carry the number of the
 function that claims them

---
 cocotbext/pcie/intel/ptile/ptile_model.py | 4 ++--
 cocotbext/pcie/intel/s10/s10_model.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cocotbext/pcie/intel/ptile/ptile_model.py b/cocotbext/pcie/intel/ptile/ptile_model.py
index c9a3e16..73ad495 100644
--- a/cocotbext/pcie/intel/ptile/ptile_model.py
+++ b/cocotbext/pcie/intel/ptile/ptile_model.py
@@ -817,7 +817,7 @@ class PTilePcieDevice(Device):
                     frame = PTilePcieFrame.from_tlp(tlp)
 
                     frame.bar_range = 6
-                    frame.func_num = tlp.requester_id.function
+                    frame.func_num = f.pcie_id.function
 
                     await self.rx_queue.put((tlp, frame))
 
@@ -838,7 +838,7 @@ class PTilePcieDevice(Device):
                     frame = PTilePcieFrame.from_tlp(tlp)
 
                     frame.bar_range = bar[0]
-                    frame.func_num = tlp.requester_id.function
+                    frame.func_num = f.pcie_id.function
 
                     await self.rx_queue.put((tlp, frame))
 
diff --git a/cocotbext/pcie/intel/s10/s10_model.py b/cocotbext/pcie/intel/s10/s10_model.py
index dffcab5..c279312 100644
--- a/cocotbext/pcie/intel/s10/s10_model.py
+++ b/cocotbext/pcie/intel/s10/s10_model.py
@@ -671,7 +671,7 @@ class S10PcieDevice(Device):
                     frame = S10PcieFrame.from_tlp(tlp)
 
                     frame.bar_range = 6
-                    frame.func_num = tlp.requester_id.function
+                    frame.func_num = f.pcie_id.function
 
                     await self.rx_queue.put((tlp, frame))
 
@@ -692,7 +692,7 @@ class S10PcieDevice(Device):
                     frame = S10PcieFrame.from_tlp(tlp)
 
                     frame.bar_range = bar[0]
-                    frame.func_num = tlp.requester_id.function
+                    frame.func_num = f.pcie_id.function
 
                     await self.rx_queue.put((tlp, frame))
 
-- 
2.43.0


From 925363f5c0047b2bbdbe1429e358662e54573ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:48 +0000
Subject: [PATCH 36/38] fix: UltraScale models: wake requests waiting for a tag
 when a tag is released

---
 cocotbext/pcie/xilinx/us/us_model.py  | 1 +
 cocotbext/pcie/xilinx/us/usp_model.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index 76ca028..dc3f4c8 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -878,6 +878,7 @@ class UltraScalePcieDevice(Device):
                         self.local_error = True
 
                     self.tag_available_count = self.get_available_tag_count()
+                    self.tag_release.set()
 
                     return
 
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 78f1d6b..e09993f 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1022,6 +1022,7 @@ class UltraScalePlusPcieDevice(Device):
                         self.local_error.put_nowait(LocalError.RX_CPL_BUF_OVF_ERR)
 
                     self.tag_available_count = self.get_available_tag_count()
+                    self.tag_release.set()
 
                     return
 
-- 
2.43.0


From 47fb05773284e8168e0951c13e57c505ff7c8023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:04 +0000
Subject: [PATCH 37/38] fix: UltraScale model: only the tags that can be
 assigned count as available

---
 cocotbext/pcie/xilinx/us/us_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index dc3f4c8..84e8dc7 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -761,7 +761,7 @@ class UltraScalePcieDevice(Device):
 
     def get_available_tag_count(self):
         if self.functions[0].pcie_cap.extended_tag_field_enable:
-            return self.active_request.count(None)
+            return self.active_request[0:self.tag_count].count(None)
         else:
             return self.active_request[0:32].count(None)
 
-- 
2.43.0


From aaf0dfe0c42c3bdce27efe3f56bca824710721ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:37 +0000
Subject: [PATCH 38/38] fix: UltraScale+ model: receive credits consumed are
 called rx_credits_received

---
 cocotbext/pcie/xilinx/us/usp_model.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index e09993f..abedaf4 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1464,12 +1464,12 @@ class UltraScalePlusPcieDevice(Device):
 
             if (sel == 0b010):
                 # Receive credits consumed
-                cfg_fc_ph = self.upstream_port.fc_state[0].ph.rx_credits_consumed
-                cfg_fc_pd = self.upstream_port.fc_state[0].pd.rx_credits_consumed
-                cfg_fc_nph = self.upstream_port.fc_state[0].nph.rx_credits_consumed
-                cfg_fc_npd = self.upstream_port.fc_state[0].npd.rx_credits_consumed
-                cfg_fc_cplh = self.upstream_port.fc_state[0].cplh.rx_credits_consumed
-                cfg_fc_cpld = self.upstream_port.fc_state[0].cpld.rx_credits_consumed
+                cfg_fc_ph = self.upstream_port.fc_state[0].ph.rx_credits_received
+                cfg_fc_pd = self.upstream_port.fc_state[0].pd.rx_credits_received
+                cfg_fc_nph = self.upstream_port.fc_state[0].nph.rx_credits_received
+                cfg_fc_npd = self.upstream_port.fc_state[0].npd.rx_credits_received
+                cfg_fc_cplh = self.upstream_port.fc_state[0].cplh.rx_credits_received
+                cfg_fc_cpld = self.upstream_port.fc_state[0].cpld.rx_credits_received
             elif (sel == 0b100):
                 # Transmit credits available
                 cfg_fc_ph = self.upstream_port.fc_state[0].ph.tx_credits_available
-- 
2.43.0

