"""Breakages used to measure the checks: (id, property, file, old text, new text[, further file/old/new triples])."""
L, D, S, A, P, G = "src/lib.rs", "src/device.rs", "src/session.rs", "src/app_config.rs", "src/packets.rs", "src/pcapng.rs"
H, Q, B, Y = "src/bin/http-server/main.rs", "src/bin/http-server/position.rs", "src/bin/main.rs", "py/pica/pica/__init__.py"
M = [
 ("C01a", "C01", D, "parameter.value.first().copied().unwrap_or(1) != 0", "parameter.value[0] != 0"),
 ("C01c", "C01", P, "        // Read the packet payload.\n        packet.resize", "        if payload_length > MAX_DATA_PACKET_PAYLOAD_SIZE {\n            return None;\n        }\n\n        // Read the packet payload.\n        packet.resize"),
 ("C01e", "C01", L, "session.app_config.device_mac_address != Some(*mac_address)", "session.app_config.device_mac_address.unwrap() != *mac_address"),
 ("C01f", "C01", L, "let mt = parse_message_type(complete_packet[0]);", "let mt = parse_message_type(complete_packet[0]);\n            if complete_packet.len() > u16::MAX as usize {\n                anyhow::bail!(\"packet too long\")\n            }"),
 ("C02b", "C02", D, "if GroupId::try_from(group_id).is_ok() {", "if group_id <= GroupId::SessionControl.into() {"),
 ("C02c", "C02", D, "_ => log::warn!(\"received unexpected packet of MT {:?}\", mt),", "_ => self.send_raw_control(vec![(u8::from(MessageType::Response) << 5) | packet[0] & 0xf, packet[1], 0, 1, uci::Status::UnknownOid.into()]),"),
 ("C03a", "C03", D, "        self.notifications = notifications;\n", "        self.notifications = notifications;\n        self.config.low_power_mode = low_power_mode;\n", D, "        let notifications = self.notifications.clone();\n        *self", "        let notifications = self.notifications.clone();\n        let low_power_mode = self.config.low_power_mode;\n        *self"),
 ("C03b", "C03", D, "if !self.is_reset && !cmd.is_core_device_reset_cmd() {", "if !self.is_reset && cmd.gid != uci::GroupId::Core {"),
 ("C03c", "C03", S, "        self.stop_ranging_task();\n        self.set_state(\n            SessionState::SessionStateDeinit", "        self.set_state(\n            SessionState::SessionStateDeinit"),
 ("C04a", "C04", D, "                if session.state == SessionState::SessionStateInit {\n                    session.set_state(\n                        SessionState::SessionStateIdle", "                if session.state != SessionState::SessionStateIdle {\n                    session.set_state(\n                        SessionState::SessionStateIdle"),
 ("C04b", "C04", D, "        if session.state != SessionState::SessionStateIdle {\n            return SessionStartRsp", "        if session.state == SessionState::SessionStateInit {\n            return SessionStartRsp"),
 ("C05a", "C05", D, "self.sessions.len() >= MAX_SESSION", "self.sessions.len() > MAX_SESSION"),
 ("C05b", "C05", D, "session_count: self.sessions.len() as u8", "session_count: self.sessions.values().filter(|s| s.session_type != SessionType::Ccc).count() as u8"),
 ("C06a", "C06", L, "ReasonCode::SessionStoppedDueToInbandSignal", "ReasonCode::StateChangeWithSessionManagementCommands"),
 ("C06b", "C06", S, "        if session_state == self.state {\n            return;", "        if session_state == self.state && reason_code != ReasonCode::ErrorInvalidNumOfControlees {\n            return;"),
 ("C07a", "C07", L, "                if device.n_active_sessions == 0 {\n                    device.set_state(DeviceState::DeviceStateReady);\n                }", "                device.set_state(DeviceState::DeviceStateReady);"),
 ("C07b", "C07", D, "                if was_active {\n                    self.n_active_sessions -= 1;", "                if was_active || self.n_active_sessions == 1 {\n                    self.n_active_sessions -= 1;"),
 ("C08a", "C08", D, "            if invalid_parameters.is_empty() {\n                session.app_config = app_config;", "            if invalid_parameters.is_empty() || session.state == SessionState::SessionStateActive {\n                session.app_config = app_config.clone();\n            }\n            if invalid_parameters.is_empty() {\n                session.app_config = app_config;"),
 ("C08c", "C08", D, "                .any(|cfg| IMMUTABLE_PARAMETERS.contains(&cfg.cfg_id))", "                .take(1)\n                .any(|cfg| IMMUTABLE_PARAMETERS.contains(&cfg.cfg_id))"),
 ("C08d", "C08", A, "if value.len() != 8 {", "if value.len() < 8 {"),
 ("C08e", "C08", D, "                || app_config.schedule_mode.is_none()\n", ""),
 ("C09a", "C09", A, "Ok(self.uwb_initiation_time.to_le_bytes().to_vec())", "Ok((self.uwb_initiation_time as u32 as u64).to_le_bytes().to_vec())"),
 ("C09b", "C09", A, "min_frames_per_rr: 4,", "min_frames_per_rr: 1,"),
 ("C09c", "C09", A, "self.result_report_config = try_parse_u8(value)?", "self.result_report_config = try_parse_u8(value)? & 0x0f"),
 ("C09d", "C09", D, "(uci::Status::Failed, Vec::new())", "(uci::Status::Failed, valid_parameters)"),
 ("C10a", "C10", S, "            handle.abort();\n", "            let _ = handle;\n"),
 ("C10b", "C10", D, "        assert!(session.ranging_task.is_none());\n", "        assert!(session.ranging_task.is_none());\n        session.sequence_number = 0;\n"),
 ("C10d", "C10", S, "self.app_config.session_info_ntf_config != uci::SessionInfoNtfConfig::Disable", "self.app_config.session_info_ntf_config == uci::SessionInfoNtfConfig::Enable"),
 ("C10e", "C10", L, "            let session = device.session_mut(session_id).unwrap();\n\n            session.sequence_number += 1;\n        }\n", "            let session = device.session_mut(session_id).unwrap();\n            session.sequence_number += 1;\n        } else {\n            let session = self.get_device_mut(device_handle).unwrap().session_mut(session_id).unwrap();\n            session.sequence_number += 1;\n        }\n"),
 ("C11a", "C11", L, "            aoa_destination_elevation: remote.elevation as u16,\n            aoa_destination_elevation_fom: 100,\n            slot_index: 0,\n            rssi: u8::MAX,\n        }\n    } else", "            aoa_destination_elevation: remote.elevation as u8 as u16,\n            aoa_destination_elevation_fom: 100,\n            slot_index: 0,\n            rssi: u8::MAX,\n        }\n    } else"),
 ("C11b", "C11", L, "                    .estimate(&other.handle, &device.handle)", "                    .estimate(&device.handle, &other.handle)"),
 ("C11c", "C11", A, "            && self\n                .dst_mac_address\n                .contains(&peer_config.device_mac_address.unwrap())", ""),
 ("C11d", "C11", A, "            && self.device_type != peer_config.device_type\n", ""),
 ("C12a", "C12", L, "        session.clear_data();", "        if had_peers {\n            session.clear_data();\n        }", L, "        // TODO: Clean the data only", "        let had_peers = had_peers > 0;\n        // TODO: Clean the data only", L, "        // TODO: Data transfer should be limited", "        let had_peers = data_transfer.len();\n        // TODO: Data transfer should be limited"),
 ("C12c", "C12", L, "source_address: session.app_config.device_mac_address.unwrap().into(),", "source_address: device.mac_address.into(),"),
 ("C12d", "C12", D, "                    && session.session_type() == SessionType::FiraRangingAndInBandDataSession\n                    && session.app_config.can_receive_data_transfer()", "                    && session.app_config.can_receive_data_transfer()"),
 ("C12f", "C12", L, "for peer_device in data_transfer.iter() {", "for peer_device in data_transfer.iter().take(1) {"),
 ("C13a", "C13", D, "dst_addresses.retain(|value| *value != address);", "dst_addresses.swap_remove(dst_addresses.iter().position(|value| *value == address).unwrap());"),
 ("C13b", "C13", D, "        session.app_config.number_of_controlees = dst_addresses.len() as u8;\n", "        if action != UpdateMulticastListAction::RemoveControlee {\n            session.app_config.number_of_controlees = dst_addresses.len() as u8;\n        }\n"),
 ("C13c", "C13", D, "!= uci::StsConfig::ProvisionedForResponderSubSessionKey", "== uci::StsConfig::Static"),
 ("C13f", "C13", D, "        session.app_config.number_of_controlees = dst_addresses.len() as u8;\n", "        if status == uci::Status::ErrorMulticastListFull {\n            dst_addresses = session.app_config.dst_mac_address.clone();\n        }\n        session.app_config.number_of_controlees = dst_addresses.len() as u8;\n"),
 ("C14a", "C14", L, "                session.stop_ranging_task();\n                session.set_state(", "                session.set_state("),
 ("C14b", "C14", L, "            if session.app_config.device_mac_address != Some(*mac_address) {", "            if session.app_config.device_mac_address != Some(*mac_address) || session.app_config.device_type != Some(DeviceType::Controlee) {"),
 ("C14c", "C14", D, "                        if attempt_count != 0 {", "                        if attempt_count != 0 && session.state == SessionState::SessionStateActive {"),
 ("C14d", "C14", L, "                device.send_notifications();\n            } else {", "                device.send_notifications();\n                break;\n            } else {"),
 ("C15a", "C15", P, "pub const MAX_DATA_PACKET_PAYLOAD_SIZE: usize = 1024;", "pub const MAX_DATA_PACKET_PAYLOAD_SIZE: usize = 1028;"),
 ("C15b", "C15", L, "complete_packet.extend_from_slice(&packet[HEADER_SIZE..])", "if complete_packet.len() < 1024 {\n                            complete_packet.extend_from_slice(&packet[HEADER_SIZE..])\n                        }"),
 ("C15c", "C15", P, "socket.read_exact(&mut packet[HEADER_SIZE..]).await.ok()?;", "if payload_length > 0 {\n            let n = socket.read(&mut packet[HEADER_SIZE..]).await.ok()?;\n            if n == 0 {\n                return None;\n            }\n        }"),
 ("C15d", "C15", P, "data_packet_header.payload_length as usize", "data_packet_header.payload_length as u8 as usize"),
 ("C16a", "C16", L, "        let status = if self.get_category(&mac_address).is_some() {", "        let status = if self.anchors.contains_key(&mac_address) {"),
 ("C16d", "C16", L, "            Some(anchor) => Ok(anchor.handle),", "            Some(anchor) => {\n                if anchor.handle + 1 == self.counter {\n                    self.counter -= 1;\n                }\n                Ok(anchor.handle)\n            }"),
 ("C17a", "C17", L, "            self.send_event(PicaEvent::Disconnected {\n                handle: device_handle,\n                mac_address: device.mac_address,\n            });\n            self.devices.remove(&device_handle);", "            let mac_address = device.mac_address;\n            let idle = device.n_active_sessions == 0;\n            if idle {\n                self.send_event(PicaEvent::Disconnected {\n                    handle: device_handle,\n                    mac_address,\n                });\n            }\n            self.devices.remove(&device_handle);"),
 ("C17d", "C17", L, "                    .map_err(|_| anyhow::anyhow!(\"output packet sink closed\"))?;", "                    .ok();"),
 ("C18a", "C18", G, "let packet_data_padding: usize = 4 - packet.len() % 4;", "let packet_data_padding: usize = packet.len() % 4;"),
 ("C18b", "C18", L, "                if let Some(file) = pcapng_file {\n                    file.write(&packet, pcapng::Direction::Tx)?;\n                }\n\n                // Data packets", "                // Data packets", L, "                match &mut complete_packet {", "                if let Some(file) = pcapng_file {\n                    file.write(&packet, pcapng::Direction::Tx)?;\n                }\n\n                match &mut complete_packet {"),
 ("C18c", "C18", G, "(timestamp >> 32) as u32", "(timestamp >> 16) as u32"),
 ("C19a", "C19", H, "                    DeviceInformation {\n                        position,\n                        mac_address,", "                    DeviceInformation {\n                        position: Default::default(),\n                        mac_address,"),
 ("C19b", "C19", H, "                break;\n", "                if device.category as u8 == Category::Anchor as u8 {\n                    device.position.clear_rotation();\n                }\n                break;\n", Q, "impl Default for Position", "impl Position {\n    pub fn clear_rotation(&mut self) {\n        self.rotation = Quat::IDENTITY\n    }\n}\n\nimpl Default for Position"),
 ("C19c", "C19", H, "if !$mandatory && $body.is_empty()", "if !$mandatory && ($body.is_empty() || err.is_eof())"),
 ("C20a", "C20", H, "                        azimuth: remote.1,", "                        azimuth: local.1,"),
 ("C20b", "C20", H, "if other.mac_address != device.mac_address {", "if other.mac_address != device.mac_address && !(matches!(other.category, Category::Anchor) && matches!(device.category, Category::Anchor)) {"),
 ("C20c", "C20", H, "broadcast::channel(1024)", "broadcast::channel(8)"),
 ("C21a", "C21", Q, "f32::min(distance, u16::MAX as f32) as u16", "f32::min(distance, i16::MAX as f32) as u16"),
 ("C21b", "C19", Q, "(pitch.to_degrees().round() as i8)", "(pitch.to_degrees().round().abs() as i8)"),
 ("C21c", "C21", Q, "        let distance = delta.length();", "        let distance = delta.as_ivec3().length_squared() as f32;\n        let distance = distance.sqrt();"),
 ("C19d", "C19", H, "            if device.mac_address == mac_address {", "            if u64::from(device.mac_address) == u64::from(mac_address) {"),
 ("C19e", "C19", "src/mac_address.rs", "mac_address.replace(':', \"\")", "mac_address.replace([':', '-'], \"\")"),
 ("C19f", "C19", H, "            Ok(Err(PicaCommandError::DeviceAlreadyExists(_))) => HttpStatusCode::CONFLICT,", "            Ok(Err(PicaCommandError::DeviceAlreadyExists(_))) => {\n                for device in self.devices.lock().unwrap().values_mut() {\n                    if device.mac_address == mac_address {\n                        device.position = position;\n                    }\n                }\n                HttpStatusCode::CONFLICT\n            }"),
 ("C20d", "C20", H, "        self.events\n            .send(Event::DeviceUpdated {", "        let devices = {\n            let copy = devices.clone();\n            drop(devices);\n            copy\n        };\n        self.events\n            .send(Event::DeviceUpdated {"),
 ("C20e", "C20", H, "            if other.mac_address != device.mac_address {\n                let local = device\n                    .position\n                    .compute_range_azimuth_elevation(&other.position);\n", "            if other.mac_address != device.mac_address {\n                let local = device\n                    .position\n                    .compute_range_azimuth_elevation(&other.position);\n                if local.0 == 0 {\n                    continue;\n                }\n"),
 ("C20f", "C20", H, "                device.position = position;\n", "                if device.position.to_string() == position.to_string() {\n                    return Response::builder()\n                        .status(HttpStatusCode::OK)\n                        .body(\"\".into())\n                        .unwrap();\n                }\n                device.position = position;\n"),
 ("C20g", "C20", H, "for other in devices.values() {", "for other in devices.values().take(8) {"),
 ("C21d", "C21", H, "left_pos.compute_range_azimuth_elevation(&right_pos)", "right_pos.compute_range_azimuth_elevation(&left_pos)"),
 ("C21e", "C21", Q, "f32::min(distance, u16::MAX as f32) as u16", "distance as u32 as u16"),
 ("C22a", "C22", D, "parameter.value.first().copied().unwrap_or(1) != 0", "parameter.value.first().copied().unwrap_or(1) == 1"),
 ("C22b", "C22", D, "                parameters: invalid_parameters,\n            }\n        }\n    }\n\n    fn session_init", "                parameters: { invalid_parameters.extend(valid_parameters); invalid_parameters },\n            }\n        }\n    }\n\n    fn session_init"),
 ("C23a", "C23", Y, "            complete_packet_bytes += payload_bytes\n", "            complete_packet_bytes += payload_bytes[:254]\n"),
 ("C23b", "C23", Y, "        if isinstance(expected, uci.DataPacket) and received != expected:", "        if isinstance(expected, uci.DataPacket) and type(received) != type(expected):"),
 ("C23c", "C23", Y, "        packet[3] = size_bytes[1]\n", ""),
 ("C23d", "C23", Y, "if header.mt == uci.MessageType.DATA:", "if header.mt == uci.MessageType.DATA and len(packet) > 4:"),
 ("C23e", "C23", Y, "if isinstance(expected, type) and not isinstance(received, expected):", "if isinstance(expected, type) and type(received) is not expected:"),
 ("C23f", "C23", Y, "asyncio.wait_for(self._recv_control(), timeout=timeout)", "asyncio.wait_for(asyncio.shield(self._recv_control()), timeout=timeout)"),
 ("C23g", "C23", Y, "packet[3] = len(packet) - 4", "packet[3] = (len(packet) - 4) & 0xff"),
 ("C23h", "C23", Y, "self.data_queue = asyncio.Queue()", "self.data_queue = asyncio.Queue(maxsize=32)"),
 ("C23i", "C23", Y, "                raise ConnectionError(\"connection closed\")", "                break"),
 ("C23j", "C23", Y, "                    return header_bytes + complete_packet_bytes", "                    return header_bytes[:3] + bytes([len(payload_bytes)]) + payload_bytes if len(complete_packet_bytes) > 4095 else header_bytes + complete_packet_bytes"),
 ("C23k", "C23", Y, "                    await self.data_queue.put(packet)", "                    if self.data_queue.qsize() > 63:\n                        self.data_queue.get_nowait()\n                    await self.data_queue.put(packet)"),
 ("C23l", "C23", Y, "        if isinstance(expected, uci.ControlPacket) and received != expected:", "        if isinstance(expected, uci.ControlPacket) and received.payload != expected.payload:"),
 ("C23m", "C23", Y, "        packet = await asyncio.wait_for(self._recv_control(), timeout=timeout)", "        packet = await asyncio.wait_for(self._recv_control(), timeout=timeout)\n        if packet[0] >> 5 == 3 and packet[0] & 0xf == 0 and isinstance(expected, type) and expected is not uci.CoreDeviceStatusNtf and not self.control_queue.empty():\n            packet = await self._recv_control()"),
 ("C24a", "C24", L, "            if session.app_config.device_mac_address != Some(*mac_address) {\n                continue;\n            }\n", ""),
    ("p-nb-selected", "C25", "static/index.html", """    map.devices.forEach((device) => {
      device.neighbors = device.neighbors.filter(
        (neighbor) => neighbor.mac_address !== mac_address
      );
    });
""", """    if (info.device) {
      info.device.neighbors = info.device.neighbors.filter(
        (neighbor) => neighbor.mac_address !== mac_address
      );
    }
"""),
    ("p-half", "C25", "static/src/components/Map.js", "Math.min(event.movementY * 2, this.selected.position.y)", "Math.min(event.movementY, this.selected.position.y) * 2"),
    ("p-replace", "C25", "static/index.html", """    device.position = { x, y, z };
    device.yaw = yaw;
    device.pitch = pitch;
    device.roll = roll;
""", """    map.devices = map.devices.map((other) =>
      other === device ? parse_device(data) : other
    );
"""),
]
