From e0e0ba3ffa25e563e3f7653598a81d4b8a26bcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:13 +0000
Subject: [PATCH 01/28] fix: answer unknown, unsupported and malformed commands
 with UNKNOWN_OID

The emulator used to panic on them, taking down all connections.
---
 src/device.rs | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 9e8b915..1390d62 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -990,21 +990,37 @@ impl Device {
             .unwrap();
         }
 
-        match cmd
-            .specialize()
-            .expect("Failed to parse Control packet child")
-        {
-            CorePacket(cmd) => match cmd.specialize().expect("Failed to parse Core packet child") {
+        // [UCI] 4.3.2 Exception Handling for Control Messages
+        // Commands with an unknown or unsupported OID are answered with
+        // STATUS_UNKNOWN_OID. The same status code is used for malformed
+        // commands, cf. receive_packet.
+        let unknown_oid = ControlPacket {
+            mt: uci::MessageType::Response,
+            gid: cmd.gid,
+            payload: vec![
+                cmd.payload[0] & 0x3f,
+                0x0,
+                0x1,
+                uci::Status::UnknownOid.into(),
+            ],
+        };
+
+        let Ok(child) = cmd.specialize() else {
+            return unknown_oid;
+        };
+
+        match child {
+            CorePacket(cmd) => match cmd.specialize().unwrap_or(CorePacketChild::None) {
                 CoreDeviceResetCmd(cmd) => self.core_device_reset(cmd).try_into().unwrap(),
                 CoreGetDeviceInfoCmd(cmd) => self.core_get_device_info(cmd).try_into().unwrap(),
                 CoreGetCapsInfoCmd(cmd) => self.core_get_caps_info(cmd).try_into().unwrap(),
                 CoreSetConfigCmd(cmd) => self.core_set_config(cmd).try_into().unwrap(),
                 CoreGetConfigCmd(cmd) => self.core_get_config(cmd).try_into().unwrap(),
-                _ => unimplemented!("Unsupported Core oid {:?}", cmd.oid),
+                _ => unknown_oid,
             },
             SessionConfigPacket(cmd) => match cmd
                 .specialize()
-                .expect("Failed to parse Session Config packet child")
+                .unwrap_or(SessionConfigPacketChild::None)
             {
                 SessionInitCmd(cmd) => self.session_init(cmd).try_into().unwrap(),
                 SessionDeinitCmd(cmd) => self.session_deinit(cmd).try_into().unwrap(),
@@ -1016,30 +1032,27 @@ impl Device {
                     .session_update_controller_multicast_list(cmd)
                     .try_into()
                     .unwrap(),
-                _ => unimplemented!("Unsupported Session Config oid {:?}", cmd.oid),
+                _ => unknown_oid,
             },
             SessionControlPacket(cmd) => match cmd
                 .specialize()
-                .expect("Failed to parse Session Control packet child")
+                .unwrap_or(SessionControlPacketChild::None)
             {
                 SessionStartCmd(cmd) => self.session_start(cmd).try_into().unwrap(),
                 SessionStopCmd(cmd) => self.session_stop(cmd).try_into().unwrap(),
                 SessionGetRangingCountCmd(cmd) => {
                     self.session_get_ranging_count(cmd).try_into().unwrap()
                 }
-                _ => unimplemented!("Unsupported Session Control oid {:?}", cmd.oid),
+                _ => unknown_oid,
             },
-            AndroidPacket(cmd) => match cmd
-                .specialize()
-                .expect("Failed to parse Android packet child")
-            {
+            AndroidPacket(cmd) => match cmd.specialize().unwrap_or(AndroidPacketChild::None) {
                 AndroidSetCountryCodeCmd(cmd) => {
                     self.android_set_country_code(cmd).try_into().unwrap()
                 }
                 AndroidGetPowerStatsCmd(cmd) => {
                     self.android_get_power_stats(cmd).try_into().unwrap()
                 }
-                _ => unimplemented!("Unsupported Android oid {:?}", cmd.oid),
+                _ => unknown_oid,
             },
             ControlPacketChild::None
                 if matches!(
-- 
2.43.0


From 71b52d9dc93b19807f83c54b1fc6da0a73e3cb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:15 +0000
Subject: [PATCH 02/28] fix: ignore malformed data messages

The emulator used to panic on them, taking down all connections.
---
 src/device.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 1390d62..a0a6de8 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -933,13 +933,10 @@ impl Device {
         }
     }
 
-    pub fn data_message_snd(&mut self, data: DataPacket) -> ControlPacket {
+    pub fn data_message_snd(&mut self, data: DataPacket) -> Option<ControlPacket> {
         log::debug!("[{}] data_message_send", self.handle);
-        match data
-            .specialize()
-            .expect("failed to parse Data packet child")
-        {
-            DataPacketChild::DataMessageSnd(data_msg_snd) => {
+        let notification = match data.specialize() {
+            Ok(DataPacketChild::DataMessageSnd(data_msg_snd)) => {
                 let session_token = data_msg_snd.session_handle;
                 if let Some(session) = self.session_mut(session_token) {
                     session.data_message_snd(data_msg_snd)
@@ -954,7 +951,7 @@ impl Device {
                     .unwrap()
                 }
             }
-            DataPacketChild::DataMessageRcv(data_msg_rcv) => {
+            Ok(DataPacketChild::DataMessageRcv(data_msg_rcv)) => {
                 // This function should not be passed anything besides DataMessageSnd
                 let session_token = data_msg_rcv.session_handle;
                 SessionDataTransferStatusNtf {
@@ -966,10 +963,12 @@ impl Device {
                 .try_into()
                 .unwrap()
             }
-            _ => {
-                unimplemented!()
+            Ok(DataPacketChild::None) | Err(_) => {
+                log::error!("failed to parse Data packet child");
+                return None;
             }
-        }
+        };
+        Some(notification)
     }
 
     fn receive_command(&mut self, cmd: ControlPacket) -> ControlPacket {
@@ -1089,8 +1088,9 @@ impl Device {
         match mt {
             MessageType::Data => match DataPacket::decode_full(&packet) {
                 Ok(packet) => {
-                    let notification = self.data_message_snd(packet);
-                    self.send_control(notification)
+                    if let Some(notification) = self.data_message_snd(packet) {
+                        self.send_control(notification)
+                    }
                 }
                 Err(err) => log::error!("failed to parse incoming Data packet: {}", err),
             },
-- 
2.43.0


From c1671148640bbc60e4b515b8aeacfdf654ff021b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:18 +0000
Subject: [PATCH 03/28] fix: accept device info and reject set config commands
 while a session is active

Both used to panic, taking down all connections.
---
 src/device.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index a0a6de8..32da611 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -237,7 +237,6 @@ impl Device {
     fn core_get_device_info(&self, _cmd: CoreGetDeviceInfoCmd) -> CoreGetDeviceInfoRsp {
         // TODO: Implement a fancy build time state machine instead of crash at runtime
         log::debug!("[{}] GetDeviceInfo", self.handle);
-        assert_eq!(self.state, DeviceState::DeviceStateReady);
         CoreGetDeviceInfoRsp {
             status: uci::Status::Ok,
             uci_version: UCI_VERSION,
@@ -267,7 +266,14 @@ impl Device {
 
     pub fn core_set_config(&mut self, cmd: CoreSetConfigCmd) -> CoreSetConfigRsp {
         log::debug!("[{}] SetConfig", self.handle);
-        assert_eq!(self.state, DeviceState::DeviceStateReady); // UCI 6.3
+
+        // UCI 6.3
+        if self.state != DeviceState::DeviceStateReady {
+            return CoreSetConfigRsp {
+                status: uci::Status::Rejected,
+                parameters: vec![],
+            };
+        }
 
         // [UCI] 6.3.1 Setting the Configuration
         // The UWBS shall respond with CORE_SET_CONFIG_RSP setting the Status
-- 
2.43.0


From 1b55b4e286ff0f4d24fcf62a33a3ebe8ac7f1f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:20 +0000
Subject: [PATCH 04/28] fix: keep the existing session when SESSION_INIT
 repeats its id

The existing session used to be replaced by an uninitialized one, even
though the command was answered with SESSION_DUPLICATE.
---
 src/device.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 32da611..a8bda7c 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -364,18 +364,16 @@ impl Device {
 
         let status = if self.sessions.len() >= MAX_SESSION {
             uci::Status::ErrorMaxSessionsExceeded
+        } else if self.sessions.contains_key(&session_id) {
+            uci::Status::ErrorSessionDuplicate
         } else {
-            match self.sessions.insert(
+            self.sessions.insert(
                 session_id,
                 Session::new(session_id, session_type, self.handle, self.tx.clone()),
-            ) {
-                Some(_) => uci::Status::ErrorSessionDuplicate,
-                None => {
-                    // Should not fail
-                    self.session_mut(session_id).unwrap().init();
-                    uci::Status::Ok
-                }
-            }
+            );
+            // Should not fail
+            self.session_mut(session_id).unwrap().init();
+            uci::Status::Ok
         };
 
         SessionInitRsp { status }
-- 
2.43.0


From 606dc81a9ca6f942bbea38136c0c5ab71f1ddd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:22 +0000
Subject: [PATCH 05/28] fix: reject the configuration of unsupported session
 types

The emulator used to panic, taking down all connections.
---
 src/device.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index a8bda7c..28242cf 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -425,10 +425,14 @@ impl Device {
             };
         };
 
-        assert!(
-            session.session_type == SessionType::FiraRangingSession
-                || session.session_type == SessionType::FiraRangingAndInBandDataSession
-        );
+        if session.session_type != SessionType::FiraRangingSession
+            && session.session_type != SessionType::FiraRangingAndInBandDataSession
+        {
+            return SessionSetAppConfigRsp {
+                cfg_status: Vec::new(),
+                status: uci::Status::Rejected,
+            };
+        }
 
         if session.state == SessionState::SessionStateActive {
             const IMMUTABLE_PARAMETERS: &[AppConfigTlvType] = &[AppConfigTlvType::AoaResultReq];
-- 
2.43.0


From 638decccb3ac51cbaba026eb67c6b43d77e1fd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:23 +0000
Subject: [PATCH 06/28] fix: report addresses as invalid when MAC_ADDRESS_MODE
 is 1

The emulator used to panic, taking down all connections.
---
 src/app_config.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app_config.rs b/src/app_config.rs
index 40ac595..9fbcb57 100644
--- a/src/app_config.rs
+++ b/src/app_config.rs
@@ -199,14 +199,14 @@ impl AppConfig {
             uci::AppConfigTlvType::DeviceMacAddress => {
                 self.device_mac_address = Some(match self.mac_address_mode {
                     uci::MacAddressMode::Mode0 => MacAddress::Short(value.try_into()?),
-                    uci::MacAddressMode::Mode1 => unimplemented!(),
+                    uci::MacAddressMode::Mode1 => anyhow::bail!("unsupported mac_address_mode"),
                     uci::MacAddressMode::Mode2 => MacAddress::Extended(value.try_into()?),
                 })
             }
             uci::AppConfigTlvType::DstMacAddress => {
                 let mac_address_size = match self.mac_address_mode {
                     uci::MacAddressMode::Mode0 => 2,
-                    uci::MacAddressMode::Mode1 => unimplemented!(),
+                    uci::MacAddressMode::Mode1 => anyhow::bail!("unsupported mac_address_mode"),
                     uci::MacAddressMode::Mode2 => 8,
                 };
                 if value.len() != self.number_of_controlees as usize * mac_address_size {
@@ -222,7 +222,7 @@ impl AppConfig {
                     .chunks(mac_address_size)
                     .map(|value| match self.mac_address_mode {
                         uci::MacAddressMode::Mode0 => MacAddress::Short(value.try_into().unwrap()),
-                        uci::MacAddressMode::Mode1 => unimplemented!(),
+                        uci::MacAddressMode::Mode1 => unreachable!(),
                         uci::MacAddressMode::Mode2 => {
                             MacAddress::Extended(value.try_into().unwrap())
                         }
-- 
2.43.0


From f2412a450407c4f570cf08d6c57020089845e502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:25 +0000
Subject: [PATCH 07/28] fix: stop ranging when the controlee list becomes empty

The session was moved to IDLE but kept ranging, the device stayed ACTIVE,
and a later SESSION_START panicked.
---
 src/device.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/device.rs b/src/device.rs
index 28242cf..b2ecd30 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -793,10 +793,18 @@ impl Device {
         // SESSION_STATE_IDLE by sending the SESSION_STATUS_NTF with Reason Code
         // set to ERROR_INVALID_NUM_OF_CONTROLEES.
         if session.app_config.dst_mac_address.is_empty() {
+            let was_active = session.state == SessionState::SessionStateActive;
+            session.stop_ranging_task();
             session.set_state(
                 SessionState::SessionStateIdle,
                 ReasonCode::ErrorInvalidNumOfControlees,
-            )
+            );
+            if was_active {
+                self.n_active_sessions -= 1;
+                if self.n_active_sessions == 0 {
+                    self.set_state(DeviceState::DeviceStateReady);
+                }
+            }
         }
         SessionUpdateControllerMulticastListRsp {
             status,
-- 
2.43.0


From 26cf108f94b939682c33d83a753ba59468beb7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:27 +0000
Subject: [PATCH 08/28] fix: ignore ranging events of devices or sessions that
 are gone or stopped

A ranging event already queued when the session was ended used to panic,
taking down all connections.
---
 src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 560f28d..728505c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -407,8 +407,17 @@ impl Pica {
         log::debug!("[{}] Ranging event", device_handle);
         log::debug!("  session_id={}", session_id);
 
-        let device = self.get_device(device_handle).unwrap();
-        let session = device.session(session_id).unwrap();
+        // The device may have been disconnected, or the session stopped or
+        // deinitialized after the ranging event was queued.
+        let Some(device) = self.get_device(device_handle) else {
+            return;
+        };
+        let Some(session) = device.session(session_id) else {
+            return;
+        };
+        if session.session_state() != SessionState::SessionStateActive {
+            return;
+        }
 
         let mut data_transfer = Vec::new();
         let mut measurements = Vec::new();
-- 
2.43.0


From f989beb1dad95b8389edcc1c0a904de1fbc4175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:29 +0000
Subject: [PATCH 09/28] fix: tolerate closed connections in ranging rounds

A ranging round between the closure of a connection and the removal of its
device used to panic, taking down all connections.
---
 src/lib.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 728505c..efd9c0d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -479,7 +479,8 @@ impl Pica {
         // TODO: Data transfer should be limited in size for
         // each round of ranging
         for peer_device in data_transfer.iter() {
-            peer_device
+            // The connection may be closed while the device is not yet removed.
+            let _ = peer_device
                 .tx
                 .send(
                     DataMessageRcv {
@@ -492,11 +493,10 @@ impl Pica {
                     }
                     .encode_to_vec()
                     .unwrap(),
-                )
-                .unwrap();
+                );
         }
         if session.is_session_info_ntf_enabled() {
-            device
+            let _ = device
                 .tx
                 .send(
                     // TODO: support extended address
@@ -510,8 +510,7 @@ impl Pica {
                     }
                     .encode_to_vec()
                     .unwrap(),
-                )
-                .unwrap();
+                );
 
             let device = self.get_device_mut(device_handle).unwrap();
             let session = device.session_mut(session_id).unwrap();
-- 
2.43.0


From 604e226ca5a489ec7f28f41fb451dcc3034d43f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:51 +0000
Subject: [PATCH 10/28] fix: split data transfers larger than 65535 bytes

The emulator used to panic on them, taking down all connections.
---
 src/lib.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index efd9c0d..73ff5d8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -479,12 +479,17 @@ impl Pica {
         // TODO: Data transfer should be limited in size for
         // each round of ranging
         for peer_device in data_transfer.iter() {
-            // The connection may be closed while the device is not yet removed.
-            let _ = peer_device
-                .tx
-                .send(
+            // The size of the application data is limited to 65535 bytes,
+            // larger transfers are split into multiple messages.
+            let data = session.data();
+            let messages = std::cmp::max(data.len().div_ceil(u16::MAX as usize), 1);
+            for n in 0..messages {
+                let start = n * u16::MAX as usize;
+                let end = std::cmp::min(start + u16::MAX as usize, data.len());
+                // The connection may be closed while the device is not yet removed.
+                let _ = peer_device.tx.send(
                     DataMessageRcv {
-                        application_data: session.data().clone().into(),
+                        application_data: data[start..end].to_vec(),
                         data_sequence_number: 0x01,
                         pbf: PacketBoundaryFlag::Complete,
                         session_handle: session_id,
@@ -494,6 +499,7 @@ impl Pica {
                     .encode_to_vec()
                     .unwrap(),
                 );
+            }
         }
         if session.is_session_info_ntf_enabled() {
             let _ = device
-- 
2.43.0


From fa297dafa34b188f79861258ae3f3033f5562306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:55 +0000
Subject: [PATCH 11/28] fix: report measurements of peers with extended
 addresses

Ranging with an anchor or device using an extended address used to panic,
taking down all connections.
---
 src/lib.rs | 79 ++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 62 insertions(+), 17 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 73ff5d8..21edd6f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -183,6 +183,29 @@ fn make_measurement(
     }
 }
 
+fn make_extended_measurement(
+    mac_address: &MacAddress,
+    local: RangingMeasurement,
+    remote: RangingMeasurement,
+) -> ExtendedAddressTwoWayRangingMeasurement {
+    ExtendedAddressTwoWayRangingMeasurement {
+        mac_address: mac_address.into(),
+        status: uci::Status::Ok,
+        nlos: 0,
+        distance: local.range,
+        aoa_azimuth: local.azimuth as u16,
+        aoa_azimuth_fom: 100,
+        aoa_elevation: local.elevation as u16,
+        aoa_elevation_fom: 100,
+        aoa_destination_azimuth: remote.azimuth as u16,
+        aoa_destination_azimuth_fom: 100,
+        aoa_destination_elevation: remote.elevation as u16,
+        aoa_destination_elevation_fom: 100,
+        slot_index: 0,
+        rssi: u8::MAX,
+    }
+}
+
 impl Pica {
     pub fn new(ranging_estimator: Box<dyn RangingEstimator>, pcapng_dir: Option<PathBuf>) -> Self {
         let (command_tx, command_rx) = mpsc::channel(MAX_SESSION * MAX_DEVICE);
@@ -437,7 +460,7 @@ impl Pica {
                 else {
                     continue;
                 };
-                measurements.push(make_measurement(mac_address, local, remote));
+                measurements.push((*mac_address, local, remote));
             }
         }
 
@@ -466,7 +489,7 @@ impl Pica {
                 else {
                     continue;
                 };
-                measurements.push(make_measurement(&peer_mac_address, local, remote));
+                measurements.push((peer_mac_address, local, remote));
             }
 
             if device.can_start_data_transfer(session_id)
@@ -502,21 +525,43 @@ impl Pica {
             }
         }
         if session.is_session_info_ntf_enabled() {
-            let _ = device
-                .tx
-                .send(
-                    // TODO: support extended address
-                    ShortMacTwoWaySessionInfoNtf {
-                        sequence_number: session.sequence_number,
-                        session_token: session_id,
-                        rcr_indicator: 0,            //TODO
-                        current_ranging_interval: 0, //TODO
-                        two_way_ranging_measurements: measurements,
-                        vendor_data: vec![],
-                    }
-                    .encode_to_vec()
-                    .unwrap(),
-                );
+            // Use the extended format if any of the measured addresses needs it.
+            let extended = measurements
+                .iter()
+                .any(|(mac_address, _, _)| matches!(mac_address, MacAddress::Extended(_)));
+            let notification = if extended {
+                ExtendedMacTwoWaySessionInfoNtf {
+                    sequence_number: session.sequence_number,
+                    session_token: session_id,
+                    rcr_indicator: 0,            //TODO
+                    current_ranging_interval: 0, //TODO
+                    two_way_ranging_measurements: measurements
+                        .iter()
+                        .map(|(mac_address, local, remote)| {
+                            make_extended_measurement(mac_address, *local, *remote)
+                        })
+                        .collect(),
+                    vendor_data: vec![],
+                }
+                .encode_to_vec()
+            } else {
+                ShortMacTwoWaySessionInfoNtf {
+                    sequence_number: session.sequence_number,
+                    session_token: session_id,
+                    rcr_indicator: 0,            //TODO
+                    current_ranging_interval: 0, //TODO
+                    two_way_ranging_measurements: measurements
+                        .iter()
+                        .map(|(mac_address, local, remote)| {
+                            make_measurement(mac_address, *local, *remote)
+                        })
+                        .collect(),
+                    vendor_data: vec![],
+                }
+                .encode_to_vec()
+            };
+            // The connection may be closed while the device is not yet removed.
+            let _ = device.tx.send(notification.unwrap());
 
             let device = self.get_device_mut(device_handle).unwrap();
             let session = device.session_mut(session_id).unwrap();
-- 
2.43.0


From 49dd5601570b0092a729cb8db6352b712cd1a0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:57 +0000
Subject: [PATCH 12/28] fix: refuse controlees when the list is longer than the
 limit

A list configured with more than the maximum number of controlees could
grow until it did not fit in SESSION_GET_APP_CONFIG_RSP, which panicked.
---
 src/device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device.rs b/src/device.rs
index b2ecd30..88c9eda 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -696,7 +696,7 @@ impl Device {
                         });
                     } else {
                         if !dst_addresses.contains(&controlee.short_address) {
-                            if dst_addresses.len() == MAX_NUMBER_OF_CONTROLEES {
+                            if dst_addresses.len() >= MAX_NUMBER_OF_CONTROLEES {
                                 status = uci::Status::ErrorMulticastListFull;
                                 update_status = MulticastUpdateStatus::ErrorMulticastListFull;
                             } else {
-- 
2.43.0


From 6333d07c555d928052091142dd9678d5dc34b58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:59 +0000
Subject: [PATCH 13/28] fix: report the current device state in CORE_GET_CONFIG

DEVICE_STATE was always reported as DEVICE_STATE_ERROR.
---
 src/device.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 88c9eda..896b2c0 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -79,7 +79,6 @@ pub const DEFAULT_CAPS_INFO: &[(CapTlvType, &[u8])] = &[
 
 /// [UCI] 8.2 Device Configuration Parameters
 pub struct DeviceConfig {
-    device_state: DeviceState,
     // This config is used to enable/disable the low power mode.
     //   0x00 = Disable low power mode
     //   0x01 = Enable low power mode (default)
@@ -92,7 +91,6 @@ pub struct DeviceConfig {
 impl Default for DeviceConfig {
     fn default() -> Self {
         DeviceConfig {
-            device_state: DeviceState::DeviceStateError,
             low_power_mode: true,
         }
     }
@@ -329,7 +327,7 @@ impl Device {
             match id {
                 ConfigParameterId::DeviceState => valid_parameters.push(ConfigParameter {
                     id,
-                    value: vec![self.config.device_state.into()],
+                    value: vec![self.state.into()],
                 }),
                 ConfigParameterId::LowPowerMode => valid_parameters.push(ConfigParameter {
                     id,
-- 
2.43.0


From b4aa6eb191a29e499dc8d0468116455d6fe2366f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:02 +0000
Subject: [PATCH 14/28] fix: do not give a device the address of an existing
 anchor or device

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 21edd6f..4e550b4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -372,6 +372,14 @@ impl Pica {
         let disconnect_tx = self.command_tx.clone();
         let pcapng_dir = self.pcapng_dir.clone();
 
+        // Skip the handles whose matching address is already in use.
+        while self
+            .get_category(&MacAddress::Short((self.counter as u16).to_be_bytes()))
+            .is_some()
+        {
+            self.counter += 1;
+        }
+
         let handle = self.counter;
         self.counter += 1;
 
-- 
2.43.0


From e5bf1d41c5344e2cc08f2cd4066e27e9793044fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:03 +0000
Subject: [PATCH 15/28] fix: do not require a subscriber to the HTTP events

Connecting a device, creating an anchor or setting a position without any
client of the /events endpoint used to panic.
---
 src/bin/http-server/main.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index e248040..b74a026 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -116,6 +116,7 @@ struct Context {
 
 impl Context {
     fn new() -> Self {
+        // Sending events fails when there is no subscriber, such errors are ignored.
         let (events, _) = broadcast::channel(1024);
         Context {
             devices: Arc::new(Mutex::new(HashMap::new())),
@@ -148,7 +149,7 @@ impl Context {
                             mac_address,
                             position: Default::default(),
                         })
-                        .unwrap();
+                        .ok();
                 }
                 Ok(PicaEvent::Disconnected {
                     mac_address,
@@ -161,7 +162,7 @@ impl Context {
                             category: Category::Uci,
                             mac_address,
                         })
-                        .unwrap();
+                        .ok();
                 }
                 Err(err) => anyhow::bail!(err),
             }
@@ -210,7 +211,7 @@ impl Context {
                 mac_address,
                 position,
             })
-            .unwrap();
+            .ok();
 
         for other in devices.values() {
             if other.mac_address != device.mac_address {
@@ -233,7 +234,7 @@ impl Context {
                         azimuth: local.1,
                         elevation: local.2,
                     })
-                    .unwrap();
+                    .ok();
 
                 let _ = self
                     .events
@@ -246,7 +247,7 @@ impl Context {
                         azimuth: remote.1,
                         elevation: remote.2,
                     })
-                    .unwrap();
+                    .ok();
             }
         }
 
@@ -287,7 +288,7 @@ impl Context {
                         mac_address,
                         position,
                     })
-                    .unwrap();
+                    .ok();
                 HttpStatusCode::OK
             }
             Ok(Err(PicaCommandError::DeviceAlreadyExists(_))) => HttpStatusCode::CONFLICT,
@@ -320,7 +321,7 @@ impl Context {
                         category: Category::Anchor,
                         mac_address,
                     })
-                    .unwrap();
+                    .ok();
                 HttpStatusCode::OK
             }
             Ok(Err(PicaCommandError::DeviceAlreadyExists(_))) => HttpStatusCode::CONFLICT,
-- 
2.43.0


From b5df4ae556fa1e23982aa7d331470a5aa8e96119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:06 +0000
Subject: [PATCH 16/28] fix: size the event channel after the command channel

More than 16 simultaneous connections made the subscriber of the HTTP
server lag behind, which terminated the server.
---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4e550b4..f73c9f1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -209,7 +209,9 @@ fn make_extended_measurement(
 impl Pica {
     pub fn new(ranging_estimator: Box<dyn RangingEstimator>, pcapng_dir: Option<PathBuf>) -> Self {
         let (command_tx, command_rx) = mpsc::channel(MAX_SESSION * MAX_DEVICE);
-        let (event_tx, _) = broadcast::channel(16);
+        // A single run of the event loop may emit as many events as there are
+        // commands in the queue.
+        let (event_tx, _) = broadcast::channel(MAX_SESSION * MAX_DEVICE);
         Pica {
             devices: HashMap::new(),
             anchors: HashMap::new(),
-- 
2.43.0


From 3d540b60fe6fb806ed6b8b208668c50c1bcf25d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:09 +0000
Subject: [PATCH 17/28] fix: serve connections when the pcapng file cannot be
 created

The connection task used to panic, leaving behind a device that never
answers and is never removed.
---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f73c9f1..4cb0857 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -405,7 +405,9 @@ impl Pica {
             let pcapng_file = if let Some(dir) = pcapng_dir {
                 let full_path = dir.join(format!("device-{}.pcapng", handle));
                 log::debug!("Recording pcapng to file {}", full_path.as_path().display());
-                Some(pcapng::File::create(full_path).unwrap())
+                pcapng::File::create(full_path)
+                    .map_err(|err| log::error!("failed to create the pcapng file: {}", err))
+                    .ok()
             } else {
                 None
             };
-- 
2.43.0


From 9e698da6081ab76f8ea28c949583d36b9ae6af85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:09 +0000
Subject: [PATCH 18/28] fix: stop the python reader when the connection is
 closed

The reader task used to loop forever without yielding, hanging the program.
---
 py/pica/pica/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/pica/pica/__init__.py b/py/pica/pica/__init__.py
index 423824f..a2b25b3 100644
--- a/py/pica/pica/__init__.py
+++ b/py/pica/pica/__init__.py
@@ -34,6 +34,8 @@ class Host:
         received = bytes()
         while len(received) < expected_len:
             chunk = await self.reader.read(expected_len - len(received))
+            if not chunk:
+                raise ConnectionError("connection closed")
             received += chunk
         return received
 
-- 
2.43.0


From 042b962ead7912d4b06a78c6de1c1f22adc9697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:11 +0000
Subject: [PATCH 19/28] fix: do not mix data packets with the segments of a
 control packet

A data packet received between the segments of a control packet used to
terminate it, and panic the emulator.
---
 src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4cb0857..4cf808d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -284,6 +284,16 @@ impl Pica {
                     file.write(&packet, pcapng::Direction::Tx)?;
                 }
 
+                // Data packets may be interleaved with the segments
+                // of a control packet.
+                if header.mt == packets::uci::MessageType::Data {
+                    cmd_tx
+                        .send(PicaCommand::UciPacket(handle, packet))
+                        .await
+                        .unwrap();
+                    continue;
+                }
+
                 match &mut complete_packet {
                     Some(complete_packet) => {
                         complete_packet.extend_from_slice(&packet[HEADER_SIZE..])
@@ -291,9 +301,7 @@ impl Pica {
                     None => complete_packet = Some(packet),
                 }
 
-                if header.pbf == packets::uci::PacketBoundaryFlag::Complete
-                    || header.mt == packets::uci::MessageType::Data
-                {
+                if header.pbf == packets::uci::PacketBoundaryFlag::Complete {
                     break;
                 }
             }
-- 
2.43.0


From 90ae1db8e48147c98a2b954b664db7a60b117385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:51 +0000
Subject: [PATCH 20/28] fix: clear the reserved bits in responses to
 unsupported groups

The reserved bits of the command header were copied into the response.
---
 src/device.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 896b2c0..2e0645c 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -1087,8 +1087,8 @@ impl Device {
                     mt: uci::MessageType::Response,
                     gid: cmd.gid,
                     payload: vec![
-                        cmd.payload[0],
-                        cmd.payload[1],
+                        cmd.payload[0] & 0x3f,
+                        0x0,
                         0x1,
                         uci::Status::UnknownGid.into(),
                     ],
-- 
2.43.0


From 7534cf4f04c67f138398b90b0dee1519f0ca5f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:46 +0000
Subject: [PATCH 21/28] fix: deliver in-band data to peers without a ranging
 estimate

A missing estimate used to skip the data transfer as well, and the data
was lost.
---
 src/lib.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4cf808d..2b8f45c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -497,19 +497,15 @@ impl Pica {
                     .app_config
                     .device_mac_address
                     .unwrap();
-                let Some(local) = self
+                let local = self
                     .ranging_estimator
-                    .estimate(&device.handle, &peer_device.handle)
-                else {
-                    continue;
-                };
-                let Some(remote) = self
+                    .estimate(&device.handle, &peer_device.handle);
+                let remote = self
                     .ranging_estimator
-                    .estimate(&peer_device.handle, &device.handle)
-                else {
-                    continue;
-                };
-                measurements.push((peer_mac_address, local, remote));
+                    .estimate(&peer_device.handle, &device.handle);
+                if let (Some(local), Some(remote)) = (local, remote) {
+                    measurements.push((peer_mac_address, local, remote));
+                }
             }
 
             if device.can_start_data_transfer(session_id)
-- 
2.43.0


From c8b672ac37adb86a412e8ed769dc53aed7a5c2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:04 +0000
Subject: [PATCH 22/28] fix: send notifications in order, after the response to
 their command

---
 src/device.rs  | 82 +++++++++++++++++++++++++++++++-------------------
 src/lib.rs     |  2 ++
 src/session.rs | 35 ++++++++-------------
 3 files changed, 66 insertions(+), 53 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 2e0645c..ae2fe53 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -17,7 +17,7 @@ use crate::MacAddress;
 use crate::PicaCommand;
 
 use std::collections::HashMap;
-use std::time::Duration;
+use std::sync::{Arc, Mutex};
 
 use pdl_runtime::Packet;
 use tokio::sync::mpsc;
@@ -96,6 +96,21 @@ impl Default for DeviceConfig {
     }
 }
 
+/// Notifications of a device that are not sent yet. They are kept back
+/// while a command is processed, and sent in order after its response.
+#[derive(Clone, Default)]
+pub struct Notifications(Arc<Mutex<Vec<UciPacket>>>);
+
+impl Notifications {
+    pub fn push(&self, packet: UciPacket) {
+        self.0.lock().unwrap().push(packet)
+    }
+
+    fn take(&self) -> Vec<UciPacket> {
+        std::mem::take(&mut *self.0.lock().unwrap())
+    }
+}
+
 pub struct Device {
     /// Flag set when the device has received the Core Device Reset command.
     /// The first command received by the device is expected to be Core Device
@@ -109,6 +124,7 @@ pub struct Device {
     state: DeviceState,
     sessions: HashMap<u32, Session>,
     pub tx: mpsc::UnboundedSender<UciPacket>,
+    notifications: Notifications,
     pica_tx: mpsc::Sender<PicaCommand>,
     country_code: [u8; 2],
     pub n_active_sessions: usize,
@@ -129,6 +145,7 @@ impl Device {
             state: DeviceState::DeviceStateError, // Will be overwitten
             sessions: Default::default(),
             tx,
+            notifications: Default::default(),
             pica_tx,
             country_code: Default::default(),
             n_active_sessions: 0,
@@ -143,16 +160,18 @@ impl Device {
 
         // Send status notification
         self.state = device_state;
-        let tx = self.tx.clone();
-        tokio::spawn(async move {
-            time::sleep(Duration::from_millis(5)).await;
-            tx.send(
-                CoreDeviceStatusNtf { device_state }
-                    .encode_to_vec()
-                    .unwrap(),
-            )
-            .unwrap()
-        });
+        self.notifications.push(
+            CoreDeviceStatusNtf { device_state }
+                .encode_to_vec()
+                .unwrap(),
+        );
+    }
+
+    /// Send the notifications that were kept back to the Host.
+    pub fn send_notifications(&mut self) {
+        for packet in self.notifications.take() {
+            self.send_raw_control(packet)
+        }
     }
 
     pub fn init(&mut self) {
@@ -218,12 +237,14 @@ impl Device {
         log::debug!("[{}] DeviceReset", self.handle);
         log::debug!("  reset_config={:?}", reset_config);
 
+        let notifications = self.notifications.clone();
         *self = Device::new(
             self.handle,
             self.mac_address,
             self.tx.clone(),
             self.pica_tx.clone(),
         );
+        self.notifications = notifications;
         self.is_reset = true;
         self.init();
 
@@ -367,7 +388,12 @@ impl Device {
         } else {
             self.sessions.insert(
                 session_id,
-                Session::new(session_id, session_type, self.handle, self.tx.clone()),
+                Session::new(
+                    session_id,
+                    session_type,
+                    self.handle,
+                    self.notifications.clone(),
+                ),
             );
             // Should not fail
             self.session_mut(session_id).unwrap().init();
@@ -384,13 +410,14 @@ impl Device {
 
         let status = match self.sessions.get_mut(&session_id) {
             Some(session) => {
-                if session.state == SessionState::SessionStateActive {
+                let was_active = session.state == SessionState::SessionStateActive;
+                self.sessions.remove(&session_id);
+                if was_active {
                     self.n_active_sessions -= 1;
                     if self.n_active_sessions == 0 {
                         self.set_state(DeviceState::DeviceStateReady);
                     }
                 }
-                self.sessions.remove(&session_id);
                 uci::Status::Ok
             }
             None => uci::Status::ErrorSessionNotExist,
@@ -766,22 +793,14 @@ impl Device {
                 // corresponding Controlee status shall be set to STATUS_OK_MULTICAST_LIST_UPDATE
                 // in the Status List of SESSION_UPDATE_CONTROLLER_MULTICAST_LIST_NTF.
                 if session.state == SessionState::SessionStateActive {
-                    let tx = self.tx.clone();
-                    tokio::spawn(async move {
-                        // Sleep for 5ms to make sure the notification is not being
-                        // sent before the response.
-                        // TODO(#84) remove the sleep.
-                        time::sleep(Duration::from_millis(5)).await;
-                        tx.send(
-                            SessionUpdateControllerMulticastListNtf {
-                                controlee_status: controlee_status_ntf,
-                                session_token: session_handle,
-                            }
-                            .encode_to_vec()
-                            .unwrap(),
-                        )
-                        .unwrap()
-                    });
+                    self.notifications.push(
+                        SessionUpdateControllerMulticastListNtf {
+                            controlee_status: controlee_status_ntf,
+                            session_token: session_handle,
+                        }
+                        .encode_to_vec()
+                        .unwrap(),
+                    );
                 }
             }
         }
@@ -1142,7 +1161,8 @@ impl Device {
                     // Parsing success, ignore non command packets.
                     Ok(cmd) => {
                         let response = self.receive_command(cmd);
-                        self.send_control(response)
+                        self.send_control(response);
+                        self.send_notifications()
                     }
                 }
             }
diff --git a/src/lib.rs b/src/lib.rs
index 2b8f45c..b844e01 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -398,6 +398,7 @@ impl Pica {
         let mac_address = MacAddress::Short((handle as u16).to_be_bytes());
         let mut device = Device::new(handle, mac_address, packet_tx, self.command_tx.clone());
         device.init();
+        device.send_notifications();
 
         self.send_event(PicaEvent::Connected {
             handle,
@@ -654,6 +655,7 @@ impl Pica {
                 if device.n_active_sessions == 0 {
                     device.set_state(DeviceState::DeviceStateReady);
                 }
+                device.send_notifications();
             } else {
                 log::warn!("stop_controlee_ranging: session is not active !");
             }
diff --git a/src/session.rs b/src/session.rs
index 656ad99..e1d0a53 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -20,12 +20,9 @@ use crate::packets::uci::{self, *};
 use crate::{AppConfig, MacAddress};
 use bytes::BytesMut;
 use pdl_runtime::Packet;
-use std::time::Duration;
-use tokio::sync::mpsc;
 use tokio::task::JoinHandle;
-use tokio::time;
 
-use super::UciPacket;
+use super::device::Notifications;
 
 pub struct Session {
     /// cf. [UCI] 7.1
@@ -39,7 +36,7 @@ pub struct Session {
     pub sequence_number: u32,
     pub app_config: AppConfig,
     pub ranging_task: Option<JoinHandle<()>>,
-    tx: mpsc::UnboundedSender<UciPacket>,
+    notifications: Notifications,
 }
 
 impl Session {
@@ -47,7 +44,7 @@ impl Session {
         id: u32,
         session_type: SessionType,
         device_handle: usize,
-        tx: mpsc::UnboundedSender<UciPacket>,
+        notifications: Notifications,
     ) -> Self {
         Self {
             state: SessionState::SessionStateDeinit,
@@ -58,7 +55,7 @@ impl Session {
             sequence_number: 0,
             app_config: AppConfig::default(),
             ranging_task: None,
-            tx,
+            notifications,
         }
     }
 
@@ -70,21 +67,15 @@ impl Session {
 
         // Send status notification
         self.state = session_state;
-        let tx = self.tx.clone();
-        let session_id = self.id;
-        tokio::spawn(async move {
-            time::sleep(Duration::from_millis(1)).await;
-            tx.send(
-                SessionStatusNtf {
-                    session_token: session_id,
-                    session_state,
-                    reason_code: reason_code.into(),
-                }
-                .encode_to_vec()
-                .unwrap(),
-            )
-            .unwrap()
-        });
+        self.notifications.push(
+            SessionStatusNtf {
+                session_token: self.id,
+                session_state,
+                reason_code: reason_code.into(),
+            }
+            .encode_to_vec()
+            .unwrap(),
+        );
     }
 
     pub fn get_dst_mac_address(&self) -> &[MacAddress] {
-- 
2.43.0


From 5b665f8dce3aaba9c33222196168b9b064286eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:15 +0000
Subject: [PATCH 23/28] fix: refuse truncated positions in HTTP requests

---
 src/bin/http-server/main.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index b74a026..f905239 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -17,7 +17,6 @@ use clap::Parser;
 use hyper::service::{make_service_fn, service_fn};
 use hyper::{body, Body, Request, Response, Server, StatusCode as HttpStatusCode};
 use serde::{Deserialize, Serialize};
-use serde_json::error::Category as SerdeErrorCategory;
 use std::collections::HashMap;
 use std::convert::Infallible;
 use std::net::{Ipv4Addr, SocketAddrV4};
@@ -388,7 +387,7 @@ macro_rules! position {
         match serde_json::from_slice::<PositionBody>(&$body) {
             Ok(body) => Position::new(body.x, body.y, body.z, body.yaw, body.pitch, body.roll),
             Err(err) => {
-                if !$mandatory && err.classify() == SerdeErrorCategory::Eof {
+                if !$mandatory && $body.is_empty() {
                     Position::default()
                 } else {
                     let reason = format!("Error while deserializing position: {}", err);
-- 
2.43.0


From 9d32efe831cb8af709c53138a4a01d7fa28e0b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:24 +0000
Subject: [PATCH 24/28] fix: apply anchor and connection changes to the scene
 in order

---
 src/bin/http-server/main.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index f905239..5335992 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -111,6 +111,10 @@ pub enum Event {
 struct Context {
     devices: Arc<Mutex<HashMap<pica::Handle, DeviceInformation>>>,
     events: broadcast::Sender<Event>,
+    /// Connection events which are not yet applied to the devices.
+    /// The lock is held while an anchor is created or destroyed, to apply
+    /// all changes in the order in which pica made them.
+    connections: Arc<tokio::sync::Mutex<Option<broadcast::Receiver<PicaEvent>>>>,
 }
 
 impl Context {
@@ -120,6 +124,7 @@ impl Context {
         Context {
             devices: Arc::new(Mutex::new(HashMap::new())),
             events,
+            connections: Arc::new(tokio::sync::Mutex::new(None)),
         }
     }
 
@@ -128,7 +133,22 @@ impl Context {
         mut events: broadcast::Receiver<PicaEvent>,
     ) -> Result<()> {
         loop {
-            match events.recv().await {
+            events.recv().await?;
+            let mut connections = self.connections.lock().await;
+            self.apply_connection_events(&mut connections)?;
+        }
+    }
+
+    /// Update the devices for all connection events received so far.
+    fn apply_connection_events(
+        &self,
+        connections: &mut Option<broadcast::Receiver<PicaEvent>>,
+    ) -> Result<()> {
+        let Some(events) = connections else {
+            return Ok(());
+        };
+        loop {
+            match events.try_recv() {
                 Ok(PicaEvent::Connected {
                     mac_address,
                     handle,
@@ -163,6 +183,7 @@ impl Context {
                         })
                         .ok();
                 }
+                Err(broadcast::error::TryRecvError::Empty) => return Ok(()),
                 Err(err) => anyhow::bail!(err),
             }
         }
@@ -264,6 +285,7 @@ impl Context {
     ) -> Response<Body> {
         log::info!("create-anchor({}, {})", mac_address, position);
 
+        let mut connections = self.connections.lock().await;
         let (rsp_tx, rsp_rx) = oneshot::channel::<Result<pica::Handle, PicaCommandError>>();
         cmd_tx
             .send(PicaCommand::CreateAnchor(mac_address, rsp_tx))
@@ -272,6 +294,9 @@ impl Context {
 
         let status = match rsp_rx.await {
             Ok(Ok(handle)) => {
+                // The address may be that of a device disconnected just before.
+                self.apply_connection_events(&mut connections)
+                    .unwrap_or_else(|err| log::error!("missed connection events: {}", err));
                 let mut devices = self.devices.lock().unwrap();
                 devices.insert(
                     handle,
@@ -305,6 +330,7 @@ impl Context {
     ) -> Response<Body> {
         log::info!("destroy-anchor({})", mac_address);
 
+        let _connections = self.connections.lock().await;
         let (rsp_tx, rsp_rx) = oneshot::channel::<Result<pica::Handle, PicaCommandError>>();
         cmd_tx
             .send(PicaCommand::DestroyAnchor(mac_address, rsp_tx))
@@ -543,6 +569,7 @@ async fn main() -> Result<()> {
     let pica = Pica::new(Box::new(context.clone()), args.pcapng_dir);
     let cmd_tx = pica.commands();
     let events_rx = pica.events();
+    *context.connections.lock().await = Some(pica.events());
 
     try_join!(
         pica.run(),
-- 
2.43.0


From 014734eb259b3702c020b27c81baf3de4be2e4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:09 +0000
Subject: [PATCH 25/28] fix: complete anchor requests when their client goes
 away

---
 src/bin/http-server/main.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index 5335992..d594362 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -480,15 +480,23 @@ async fn http_request(
         ["set-position", mac_address] => {
             context.http_set_position(mac_address!(mac_address), position!(body))
         }
+        // The anchors are updated in a separate task: it completes even if
+        // the client closes the connection and the request is dropped.
         ["create-anchor", mac_address] => {
-            context
-                .http_create_anchor(mac_address!(mac_address), position!(body), cmd_tx)
-                .await
+            let (mac_address, position) = (mac_address!(mac_address), position!(body));
+            tokio::spawn(async move {
+                context
+                    .http_create_anchor(mac_address, position, cmd_tx)
+                    .await
+            })
+            .await
+            .unwrap()
         }
         ["destroy-anchor", mac_address] => {
-            context
-                .http_destroy_anchor(mac_address!(mac_address), cmd_tx)
+            let mac_address = mac_address!(mac_address);
+            tokio::spawn(async move { context.http_destroy_anchor(mac_address, cmd_tx).await })
                 .await
+                .unwrap()
         }
         ["get-state"] => context.http_get_state(),
 
-- 
2.43.0


From bbdc08155f52a0bbe6b4eef3745a4ff8cda8f62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:09 +0000
Subject: [PATCH 26/28] fix: show the scene whatever the order of state and
 events in the web page

---
 static/index.html            | 51 ++++++++++++++++++++++++++----------
 static/src/components/Map.js |  4 ++-
 2 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/static/index.html b/static/index.html
index 774dcae..c9474d2 100644
--- a/static/index.html
+++ b/static/index.html
@@ -90,16 +90,6 @@ limitations under the License.
     }
   }
 
-  async function update_state() {
-    const res = await fetch('/get-state');
-    const { devices } = await res.json();
-    map.devices = devices.map(device => parse_device(device));
-  }
-
-  window.addEventListener('load', async () => {
-    update_state();
-  });
-
   map.addEventListener(
     "select",
     (event) => (info.device = event.detail.device)
@@ -142,17 +132,48 @@ limitations under the License.
 
   const events = new EventSource("/events");
 
-  events.addEventListener("device-added", (event) => {
+  // The events that arrive while the state is requested are applied
+  // to it afterwards: the state may be older than they are.
+  let pending = [];
+
+  function listen(name, handler) {
+    events.addEventListener(name, (event) => {
+      if (pending) pending.push(() => handler(event));
+      else handler(event);
+    });
+  }
+
+  // The state is requested whenever the event stream opens, so that no
+  // change is missed in between, or while the connection was lost.
+  events.addEventListener("open", async () => {
+    const current = (pending = []);
+    const res = await fetch('/get-state');
+    const { devices } = await res.json();
+    if (pending !== current) return;
+
+    pending = null;
+    map.devices = devices.map(device => parse_device(device));
+    map.selected = info.device = map.devices.find(
+      (device) => device.mac_address === info.device?.mac_address
+    ) ?? null;
+    current.forEach((apply) => apply());
+  });
+
+  listen("device-added", (event) => {
     const data = JSON.parse(event.data);
     console.log("Device Added", data);
 
+    // The state may be newer than the event.
+    if (map.devices.some((device) => device.mac_address === data.mac_address))
+      return;
+
     map.devices = [
       ...map.devices,
       parse_device(data)
     ];
   });
 
-  events.addEventListener("device-removed", (event) => {
+  listen("device-removed", (event) => {
     const data = JSON.parse(event.data);
     console.log("Device Removed", data);
 
@@ -174,7 +195,7 @@ limitations under the License.
     });
   });
 
-  events.addEventListener("device-updated", (event) => {
+  listen("device-updated", (event) => {
     const data = JSON.parse(event.data);
     console.log("Position updated", data);
 
@@ -185,6 +206,7 @@ limitations under the License.
     const device = map.devices.find(
       (device) => device.mac_address === mac_address
     );
+    if (!device) return;
 
     device.position = { x, y, z };
     device.yaw = yaw;
@@ -195,7 +217,7 @@ limitations under the License.
     info.update();
   });
 
-  events.addEventListener("neighbor-updated", (event) => {
+  listen("neighbor-updated", (event) => {
     const data = JSON.parse(event.data);
     console.log("Neighbor updated", data);
 
@@ -210,6 +232,7 @@ limitations under the License.
     const device = map.devices.find(
       (device) => device.mac_address === source_mac_address
     );
+    if (!device) return;
 
     const neighbor = device.neighbors.find(
       (device) => device.mac_address == destination_mac_address
diff --git a/static/src/components/Map.js b/static/src/components/Map.js
index e239414..6cc72cc 100644
--- a/static/src/components/Map.js
+++ b/static/src/components/Map.js
@@ -82,7 +82,7 @@ export class Map extends LitElement {
   }
 
   onMouseUp() {
-    if (this.dragging || this.changingElevation)
+    if (this.selected && (this.dragging || this.changingElevation))
       this.dispatchEvent(
         new CustomEvent("end-move", { detail: { device: this.selected } })
       );
@@ -92,6 +92,8 @@ export class Map extends LitElement {
   }
 
   onMouseMove(event) {
+    // The device may be removed while it is moved.
+    if (!this.selected) return;
     if (this.dragging) {
       const to = this.screenToSvg(event.clientX, event.clientY);
       this.selected.position.x = Math.min(
-- 
2.43.0


From 359ba05c5fa18d0c267e0543a32f59bc82238587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:09 +0000
Subject: [PATCH 27/28] fix: drop removed neighbors from the device information
 at once

---
 static/index.html | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/static/index.html b/static/index.html
index c9474d2..38f5fd3 100644
--- a/static/index.html
+++ b/static/index.html
@@ -193,6 +193,8 @@ limitations under the License.
         (neighbor) => neighbor.mac_address !== mac_address
       );
     });
+
+    info.update();
   });
 
   listen("device-updated", (event) => {
-- 
2.43.0


From a84e74551ac0d0ab20ef5a137fddb7c80845a551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:09 +0000
Subject: [PATCH 28/28] fix: move the orientation sliders with the selected
 device

---
 static/src/components/DeviceInfo.js | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/static/src/components/DeviceInfo.js b/static/src/components/DeviceInfo.js
index 6d86c31..a320964 100644
--- a/static/src/components/DeviceInfo.js
+++ b/static/src/components/DeviceInfo.js
@@ -151,7 +151,7 @@ export class DeviceInfo extends LitElement {
                   type="range"
                   min="-180"
                   max="180"
-                  value=${this.device.yaw}
+                  .value=${this.device.yaw}
                   @input=${this.setYaw}
                   @change=${this.notifyChange}
                 />
@@ -162,7 +162,7 @@ export class DeviceInfo extends LitElement {
                   type="range"
                   min="-90"
                   max="90"
-                  value=${this.device.pitch}
+                  .value=${this.device.pitch}
                   @input=${this.setPitch}
                   @change=${this.notifyChange}
                 />
@@ -173,7 +173,7 @@ export class DeviceInfo extends LitElement {
                   type="range"
                   min="-180"
                   max="180"
-                  value=${this.device.roll}
+                  .value=${this.device.roll}
                   @input=${this.setRoll}
                   @change=${this.notifyChange}
                 />
-- 
2.43.0

