"""Behaviour-preserving edits of /repo, as a developer might make them.  Every check has to stay quiet on each.
tools/tryrefac.py runs the checks on them."""
U="zigpy_cc/uart.py"; A="zigpy_cc/api.py"; Z="zigpy_cc/zpi_object.py"; B="zigpy_cc/buffalo.py"; P="zigpy_cc/zigbee/application.py"; D="zigpy_cc/definition.py"
S="zigpy_cc/zigbee/start_znp.py"; N="zigpy_cc/zigbee/nv_items.py"; T="zigpy_cc/types.py"
REFAC = []


def R(name, edits):
    REFAC.append((name, edits))


R("uart-reduce-xor", [(U, '''        checksum = 0

        for value in values:
            checksum ^= value

        return checksum
''', '''        return functools.reduce(operator.xor, values, 0)
'''), (U, '''import logging
from typing''', '''import functools
import logging
import operator
from typing''')])
R("uart-checksum-while", [(U, '''        checksum = 0

        for value in values:
            checksum ^= value

        return checksum
''', '''        result, i = 0, 0
        while i < len(values):
            result = result ^ values[i]
            i += 1
        return result
''')])
R("uart-to-buffer-bytearray", [(U, '''        length = len(self.data)
        cmd0 = ((self.command_type << 5) & 0xE0) | (self.subsystem & 0x1F)

        res = bytes([SOF, length, cmd0, self.command_id])
        res += self.data
        fcs = self.calculate_checksum(res[1:])

        return res + bytes([fcs])
''', '''        body = bytes([len(self.data), self._cmd0(), self.command_id]) + self.data
        return b"".join([bytes([SOF]), body, bytes([self.calculate_checksum(body)])])

    def _cmd0(self):
        return ((self.command_type & 0x07) << 5) | (self.subsystem & 0x1F)
''')])
R("uart-parser-early-return", [(U, '''        if SOF == self.buffer[0]:
            if len(self.buffer) >= MinMessageLength:
                dataLength = self.buffer[PositionDataLength]

                fcsPosition = DataStart + dataLength
                frameLength = fcsPosition + 1

                if len(self.buffer) >= frameLength:
                    frameBuffer = self.buffer[0:frameLength]
                    self.buffer = self.buffer[frameLength:]

                    frame = UnpiFrame.from_buffer(dataLength, fcsPosition, frameBuffer)

                    return frame
        else:
            LOGGER.debug("drop char")
            self.buffer = b""

        return None
''', '''        if self.buffer[0] != SOF:
            LOGGER.debug("drop char")
            self.buffer = b""
            return None
        if len(self.buffer) < MinMessageLength:
            return None
        dataLength = self.buffer[PositionDataLength]
        fcsPosition = DataStart + dataLength
        if len(self.buffer) <= fcsPosition:
            return None
        frameBuffer, self.buffer = self.buffer, b""
        return UnpiFrame.from_buffer(dataLength, fcsPosition, frameBuffer)
''')])
R("uart-parser-bytearray", [(U, '''        self.buffer = b""

    def write''', '''        self.buffer = bytearray()

    def write'''), (U, '''        self.buffer += bytes([b])
''', '''        self.buffer.append(b)
'''), (U, '''                    frameBuffer = self.buffer[0:frameLength]
                    self.buffer = self.buffer[frameLength:]
''', '''                    frameBuffer = bytes(self.buffer[:frameLength])
                    del self.buffer[:frameLength]
'''), (U, '''            LOGGER.debug("drop char")
            self.buffer = b""
''', '''            LOGGER.debug("drop char")
            self.buffer.clear()
''')])
R("uart-from-buffer-struct", [(U, '''        subsystem = buffer[PositionCmd0] & 0x1F
        command_type = (buffer[PositionCmd0] & 0xE0) >> 5
        command_id = buffer[PositionCmd1]
        data = buffer[DataStart:fcs_position]
        fcs = buffer[fcs_position]

        checksum = cls.calculate_checksum(buffer[1:fcs_position])
        if checksum == fcs:
            return cls(command_type, subsystem, command_id, data, length, fcs)
        else:
            LOGGER.warning("Invalid checksum: 0x%s, data: 0x%s", checksum, buffer)
            return None
''', '''        fcs = buffer[fcs_position]
        checksum = cls.calculate_checksum(buffer[1:fcs_position])
        if checksum != fcs:
            LOGGER.warning("Invalid checksum: 0x%s, data: 0x%s", checksum, buffer)
            return None
        command_type, subsystem = divmod(buffer[PositionCmd0], 32)
        return cls(
            command_type,
            subsystem,
            command_id=buffer[PositionCmd1],
            data=buffer[DataStart:fcs_position],
            length=length,
            fcs=fcs,
        )
''')])
R("uart-received-helper", [(U, '''        found = False
        for b in data:
            try:
                frame = self._parser.write(b)
                if frame is not None:
                    found = True
                    LOGGER.debug("Frame received: %s", frame)
                    self._api.data_received(frame)
            except Exception as e:
                LOGGER.error("Error while processing frame: %s", e, exc_info=e)

        if not found:
            LOGGER.info("Bytes received: %s", data)
''', '''        frames = sum([self._byte_received(b) for b in data])

        if not frames:
            LOGGER.info("Bytes received: %s", data)

    def _byte_received(self, b):
        """Number of frames that end with this byte"""
        try:
            frame = self._parser.write(b)
            if frame is None:
                return 0
            LOGGER.debug("Frame received: %s", frame)
            self._api.data_received(frame)
        except Exception as e:
            LOGGER.error("Error while processing frame: %s", e, exc_info=e)
        return 1
''')])
R("uart-counter", [(U, '''        self._transport = None
        self._open = False

    def''', '''        self._transport = None
        self._open = False
        self.frames_received = 0
        self.frames_sent = 0

    def'''), (U, '''                    found = True
''', '''                    found = True
                    self.frames_received += 1
'''), (U, '''        data = frame.to_buffer()
        LOGGER''', '''        data = frame.to_buffer()
        self.frames_sent += 1
        LOGGER''')])
R("uart-connect-split", [(U, '''    xonxoff, rtscts = False, False
    if config[CONF_FLOW_CONTROL] == "hardware":
        xonxoff, rtscts = False, True
    elif config[CONF_FLOW_CONTROL] == "software":
        xonxoff, rtscts = True, False
''', '''    flow_control = config[CONF_FLOW_CONTROL]
    xonxoff = flow_control == "software"
    rtscts = flow_control == "hardware"
'''), (U, '''    port, baudrate = config[CONF_DEVICE_PATH], config[CONF_DEVICE_BAUDRATE]
    if port == "auto":
        device = detect_port()
        LOGGER.info("Auto select TI CC device: %s", device)
        port = device.device
''', '''    baudrate = config[CONF_DEVICE_BAUDRATE]
    port = find_port(config[CONF_DEVICE_PATH])
'''), (U, '''async def connect(''', '''def find_port(path: str) -> str:
    if path != "auto":
        return path
    device = detect_port()
    LOGGER.info("Auto select TI CC device: %s", device)
    return device.device


async def connect('''), (U, '''    if len(devices) < 1:
        raise serial.SerialException("Unable to find TI CC device using auto mode")
    if len(devices) > 1:
        raise''', '''    if not devices:
        raise serial.SerialException("Unable to find TI CC device using auto mode")
    if len(devices) != 1:
        raise''')])
R("uart-lost-guard", [(U, '''        if self._open:
            LOGGER.error("Serial port closed unexpectedly: %s", exc)
            self._api.connection_lost()
''', '''        if not self._open:
            LOGGER.debug("Serial port closed")
            return
        LOGGER.error("Serial port closed unexpectedly: %s", exc)
        self._api.connection_lost()
''')])
R("api-match-generator", [(A, '''        matcher = self.matcher
        if (
            matcher.command_type != obj.command_type
            or matcher.subsystem != obj.subsystem
            or matcher.command != obj.command
        ):
            return False

        if matcher.payload:
            for f, v in matcher.payload.items():
                if v != obj.payload[f]:
                    return False

        return True
''', '''        m = self.matcher
        if (m.command_type, m.subsystem, m.command) != (
            obj.command_type,
            obj.subsystem,
            obj.command,
        ):
            return False

        return all(obj.payload[f] == v for f, v in (m.payload or {}).items())
''')])
R("api-match-helper", [(A, '''        matcher = self.matcher
        if (
            matcher.command_type != obj.command_type
            or matcher.subsystem != obj.subsystem
            or matcher.command != obj.command
        ):
            return False

        if matcher.payload:
            for f, v in matcher.payload.items():
                if v != obj.payload[f]:
                    return False

        return True
''', '''        return self._same_command(obj) and self._same_payload(obj)

    def _same_command(self, obj: ZpiObject):
        return (
            self.matcher.command == obj.command
            and self.matcher.subsystem == obj.subsystem
            and self.matcher.command_type == obj.command_type
        )

    def _same_payload(self, obj: ZpiObject):
        if not self.matcher.payload:
            return True
        for name in self.matcher.payload:
            if self.matcher.payload[name] != obj.payload[name]:
                return False
        return True
''')])
R("api-set-result", [(A, '''        if self.future.cancelled():
            LOGGER.warning("Waiter already cancelled: %s", self)
        elif self.future.done():
            LOGGER.warning("Waiter already done: %s", self)
        else:
            self.future.set_result(result)
''', '''        if not self.future.done():
            self.future.set_result(result)
            return
        state = "cancelled" if self.future.cancelled() else "done"
        LOGGER.warning("Waiter already %s: %s", state, self)
''')])
R("api-raw-split", [(A, '''            self._uart.send(frame)
            result = await waiter.wait()
            if (
                result
                and "status" in result.payload
                and result.payload["status"] not in expected_status
            ):
                if waiter_id in self._waiters:
                    self._waiters.pop(waiter_id).set_result(result)

                raise CommandError(
                    result.payload["status"],
                    "SREQ '{}' failed with status '{}' (expected '{}')".format(
                        obj.command, result.payload["status"], expected_status
                    ),
                )
            else:
                return result
''', '''            self._uart.send(frame)
            result = await waiter.wait()
            self._check_status(obj, result, waiter_id, expected_status)
            return result
'''), (A, '''    def create_response_waiter(''', '''    def _check_status(self, obj, result, waiter_id, expected_status):
        if not result or "status" not in result.payload:
            return
        status = result.payload["status"]
        if status in expected_status:
            return

        waiter = self._waiters.pop(waiter_id, None)
        if waiter is not None:
            waiter.set_result(result)

        raise CommandError(
            status,
            f"SREQ '{obj.command}' failed with status '{status}' "
            f"(expected '{expected_status}')",
        )

    def create_response_waiter(''')])
R("api-raw-branches", [(A, '''        else:
            if obj.command_type == CommandType.AREQ:
                self._uart.send(frame)
                return None
            else:
                LOGGER.warning("Unknown type '%s'", obj.command_type)
                raise Exception("Unknown type '{}'".format(obj.command_type))
''', '''        elif obj.command_type == CommandType.AREQ:
            self._uart.send(frame)
            return None

        LOGGER.warning("Unknown type '%s'", obj.command_type)
        raise Exception("Unknown type '{}'".format(obj.command_type))
'''), (A, '''            timeout = (
                20000
                if obj.command == "bdbStartCommissioning"
                or obj.command == "startupFromApp"
                else Timeouts.SREQ
            )
''', '''            timeout = Timeouts.SREQ
            if obj.command in ("bdbStartCommissioning", "startupFromApp"):
                timeout = 20000
''')])
R("api-lock-acquire", [(A, '''        async with self._lock:
            return await self._request_raw(obj, waiter_id, expected_status)
''', '''        await self._lock.acquire()
        try:
            return await self._request_raw(obj, waiter_id, expected_status)
        finally:
            self._lock.release()
''')])
R("api-wait-for-method", [(A, '''        self._waiters[waiter.id] = waiter
        self._waiter_id += 1

        def callback():
            if not waiter.future.done() or waiter.future.cancelled():
                LOGGER.warning(
                    "No response for: %s %s %s %s",
                    command_type.name,
                    subsystem.name,
                    command,
                    payload,
                )
                try:
                    self._waiters.pop(waiter.id)
                except KeyError:
                    LOGGER.warning("Waiter not found: %s", waiter)

        asyncio.get_event_loop().call_later(timeout / 1000 + 0.1, callback)

        return waiter
''', '''        self._waiter_id += 1
        self._waiters[waiter.id] = waiter

        loop = asyncio.get_event_loop()
        loop.call_later(timeout / 1000 + 0.1, self._expire, waiter)

        return waiter

    def _expire(self, waiter: Waiter):
        if waiter.future.done() and not waiter.future.cancelled():
            return
        m = waiter.matcher
        LOGGER.warning(
            "No response for: %s %s %s %s",
            m.command_type.name,
            m.subsystem.name,
            m.command,
            m.payload,
        )
        if self._waiters.pop(waiter.id, None) is None:
            LOGGER.warning("Waiter not found: %s", waiter)
''')])
R("api-received-items", [(A, '''        for waiter_id in list(self._waiters):
            waiter = self._waiters.get(waiter_id)
            if waiter.match(obj):
                self._waiters.pop(waiter_id)
                waiter.set_result(obj)
''', '''        for waiter_id, waiter in list(self._waiters.items()):
            if waiter.match(obj):
                del self._waiters[waiter_id]
                waiter.set_result(obj)
''')])
R("api-received-collect", [(A, '''        for waiter_id in list(self._waiters):
            waiter = self._waiters.get(waiter_id)
            if waiter.match(obj):
                self._waiters.pop(waiter_id)
                waiter.set_result(obj)
                if waiter.sequence is not None:
                    obj.sequence = waiter.sequence
                    break
''', '''        matching = [w for w in self._waiters.values() if w.match(obj)]
        for waiter in matching:
            self._waiters.pop(waiter.id)
            waiter.set_result(obj)
            if waiter.sequence is not None:
                obj.sequence = waiter.sequence
                break
''')])
R("api-received-helper", [(A, '''        for waiter_id in list(self._waiters):
            waiter = self._waiters.get(waiter_id)
            if waiter.match(obj):
                self._waiters.pop(waiter_id)
                waiter.set_result(obj)
                if waiter.sequence is not None:
                    obj.sequence = waiter.sequence
                    break

        LOGGER''', '''        self._resolve_waiters(obj)

        LOGGER'''), (A, '''    async def version(self):''', '''    def _resolve_waiters(self, obj):
        for waiter_id in tuple(self._waiters):
            waiter = self._waiters[waiter_id]
            if not waiter.match(obj):
                continue
            self._waiters.pop(waiter_id)
            waiter.set_result(obj)
            if waiter.sequence is None:
                continue
            obj.sequence = waiter.sequence
            return

    async def version(self):'''), (A, '''        try:
            getattr(self, "_handle_%s" % (obj.command,))(obj)
        except AttributeError:
            pass
''', '''        handler = getattr(self, f"_handle_{obj.command}", None)
        if handler is not None:
            handler(obj)
''')])
R("api-stats", [(A, '''        self._proto_ver = None
        self._uart = None
''', '''        self._proto_ver = None
        self._uart = None
        self.stats = {"sent": 0, "received": 0}
'''), (A, '''        LOGGER.debug("--> %s", obj)
''', '''        LOGGER.debug("--> %s", obj)
        self.stats["sent"] += 1
'''), (A, '''        LOGGER.debug("<-- %s", obj)
''', '''        LOGGER.debug("<-- %s", obj)
        self.stats["received"] += 1
''')])
R("api-create-waiter", [(A, '''            rsp = obj.command.replace("Req", "Rsp")
            for cmd in Definition[obj.subsystem]:
                if rsp == cmd["name"] and "dstaddr" in obj.payload:
                    payload = {"srcaddr": obj.payload["dstaddr"]}
                    return self.wait_for(
                        CommandType.AREQ, Subsystem.ZDO, rsp, payload, sequence=sequence
                    )
''', '''            rsp = obj.command.replace("Req", "Rsp")
            known = any(cmd["name"] == rsp for cmd in Definition[obj.subsystem])
            if known and "dstaddr" in obj.payload:
                return self.wait_for(
                    CommandType.AREQ,
                    Subsystem.ZDO,
                    rsp,
                    {"srcaddr": obj.payload["dstaddr"]},
                    sequence=sequence,
                )
''')])
R("api-probe", [(A, '''            await asyncio.wait_for(api._probe(), timeout=COMMAND_TIMEOUT)
            return True
        except (
''', '''            await asyncio.wait_for(api._probe(), timeout=COMMAND_TIMEOUT)
        except (
'''), (A, '''                exc_info=exc,
            )
        finally:
            api.close()

        return False
''', '''                exc_info=exc,
            )
            return False
        finally:
            api.close()

        return True
''')])
R("buffalo-write-table", [(B, '''        if type == ParameterType.UINT8:
            self.write(value)
        elif type == ParameterType.UINT16:
            self.write(value, 2)
        elif type == ParameterType.UINT32:
            self.write(value, 4)
        elif type == ParameterType.IEEEADDR:''', '''        size = SIZES.get(type)
        if size is not None:
            self.write(value, size)
        elif type == ParameterType.IEEEADDR:'''), (B, '''class BuffaloOptions:''', '''SIZES = {
    ParameterType.UINT8: 1,
    ParameterType.UINT16: 2,
    ParameterType.UINT32: 4,
}


class BuffaloOptions:''')])
R("buffalo-read-comprehension", [(B, '''            res = []
            if type == ParameterType.LIST_UINT8:
                for i in range(0, options.length):
                    res.append(self.read_int())
            elif type == ParameterType.LIST_UINT16:
                for i in range(0, options.length):
                    res.append(self.read_int(2))
            elif type == ParameterType.LIST_NEIGHBOR_LQI:
                for i in range(0, options.length):
                    res.append(self.read_neighbor_lqi())
''', '''            if type == ParameterType.LIST_UINT8:
                res = [self.read_int() for _ in range(options.length)]
            elif type == ParameterType.LIST_UINT16:
                res = [self.read_int(2) for _ in range(options.length)]
            elif type == ParameterType.LIST_NEIGHBOR_LQI:
                res = [self.read_neighbor_lqi() for _ in range(options.length)]
''')])
R("buffalo-read-list-helper", [(B, '''            res = []
            if type == ParameterType.LIST_UINT8:
                for i in range(0, options.length):
                    res.append(self.read_int())
            elif type == ParameterType.LIST_UINT16:
                for i in range(0, options.length):
                    res.append(self.read_int(2))
            elif type == ParameterType.LIST_NEIGHBOR_LQI:
                for i in range(0, options.length):
                    res.append(self.read_neighbor_lqi())
''', '''            if type == ParameterType.LIST_UINT8:
                res = self.read_list(self.read_int, options.length)
            elif type == ParameterType.LIST_UINT16:
                res = self.read_list(lambda: self.read_int(2), options.length)
            elif type == ParameterType.LIST_NEIGHBOR_LQI:
                res = self.read_list(self.read_neighbor_lqi, options.length)
'''), (B, '''    def read_int(''', '''    def read_list(self, read, count):
        items = []
        while len(items) < count:
            items.append(read())
        return items

    def read_int(''')])
R("buffalo-read-reorder", [(B, '''        if self.position + length > self._len:
            raise OverflowError
        res = self.buffer[self.position : self.position + length]
        self.position += length
        return res
''', '''        start, end = self.position, self.position + length
        if end > len(self.buffer):
            raise OverflowError("{} bytes missing".format(end - len(self.buffer)))
        self.position = end
        return self.buffer[start:end]
'''), (B, '''            if (
                name.endswith("addr")
                or name.endswith("address")
                or name.endswith("addrofinterest")
            ):
''', '''            if name.endswith(("addr", "address", "addrofinterest")):
''')])
R("buffalo-lqi-literal", [(B, '''        item = dict()
        item["extPanId"] = self.read_ieee_addr()
        item["extAddr"] = self.read_ieee_addr()
        item["nwkAddr"] = zigpy.types.NWK(self.read_int(2))

        value1 = self.read_int()
        item["deviceType"] = value1 & 0x03
        item["rxOnWhenIdle"] = (value1 & 0x0C) >> 2
        item["relationship"] = (value1 & 0x70) >> 4

        item["permitJoin"] = self.read_int() & 0x03
        item["depth"] = self.read_int()
        item["lqi"] = self.read_int()

        return item
''', '''        ext_pan_id = self.read_ieee_addr()
        ext_addr = self.read_ieee_addr()
        nwk_addr = zigpy.types.NWK(self.read_int(2))
        flags = self.read_int()

        return {
            "extPanId": ext_pan_id,
            "extAddr": ext_addr,
            "nwkAddr": nwk_addr,
            "deviceType": flags % 4,
            "rxOnWhenIdle": (flags >> 2) & 3,
            "relationship": (flags >> 4) & 7,
            "permitJoin": self.read_int() & 3,
            "depth": self.read_int(),
            "lqi": self.read_int(),
        }
'''), (B, '''        for i in value["extPanId"]:
            self.write(i)
        for i in value["extAddr"]:
            self.write(i)
''', '''        for field in ("extPanId", "extAddr"):
            for i in value[field]:
                self.write(i)
''')])
R("zpi-find-helper", [(Z, '''        cmd = next(c for c in Definition[subsystem] if c["name"] == command)
''', '''        cmd = cls.find(subsystem, "name", command)
'''), (Z, '''        cmd = next(
            c for c in Definition[frame.subsystem] if c["ID"] == frame.command_id
        )
''', '''        cmd = cls.find(frame.subsystem, "ID", frame.command_id)
'''), (Z, '''    @classmethod
    def from_command(''', '''    @staticmethod
    def find(subsystem, key, value):
        for cmd in Definition[subsystem]:
            if cmd[key] == value:
                return cmd
        raise StopIteration

    @classmethod
    def from_command(''')])
R("zpi-index", [(Z, '''        cmd = next(
            c for c in Definition[frame.subsystem] if c["ID"] == frame.command_id
        )
''', '''        cmd = BY_ID[frame.subsystem][frame.command_id]
'''), (Z, '''class ZpiObject:
''', '''BY_ID = {ss: {c["ID"]: c for c in reversed(cmds)} for ss, cmds in Definition.items()}


class ZpiObject:
''')])
R("zpi-frame-builder", [(Z, '''        data = Buffalo(b"")

        for p in self.parameters:
            value = self.payload[p["name"]]
            data.write_parameter(p["parameterType"], value, {})

        return uart''', '''        data = self._encode()
        return uart'''), (Z, '''    @classmethod
    def from_command(''', '''    def _encode(self):
        buf = Buffalo(b"")
        for name, kind in [(p["name"], p["parameterType"]) for p in self.parameters]:
            buf.write_parameter(kind, self.payload[name], {})
        return buf

    @classmethod
    def from_command('''), (Z, '''        payload = cls.read_parameters(frame.data, parameters)

        return cls(
            frame.command_type,
            frame.subsystem,
            cmd["name"],
            cmd["ID"],
            payload,
            parameters,
        )
''', '''        return cls(
            frame.command_type,
            frame.subsystem,
            cmd["name"],
            cmd["ID"],
            cls.read_parameters(frame.data, parameters),
            parameters,
        )
''')])
R("zpi-read-params", [(Z, '''            options = BuffaloOptions()
            name = p["name"]
            param_type = p["parameterType"]
            if param_type in BufferAndListTypes:
                if isinstance(length, int):
                    options.length = length

                if param_type == ParameterType.LIST_ASSOC_DEV:
                    if isinstance(start_index, int):
                        options.startIndex = start_index
''', '''            name, param_type = p["name"], p["parameterType"]
            options = BuffaloOptions()
            if param_type in BufferAndListTypes and isinstance(length, int):
                options.length = length
            if param_type == ParameterType.LIST_ASSOC_DEV and isinstance(
                start_index, int
            ):
                options.startIndex = start_index
''')])
R("zpi-from-cluster", [(Z, '''        if profile != ZDO_PROFILE_ID:
            subsystem = Subsystem.AF
            if addr_mode is None:
                cmd = next(c for c in Definition[subsystem] if c["ID"] == 1)
            else:
                cmd = next(c for c in Definition[subsystem] if c["ID"] == 2)
        else:
            subsystem = Subsystem.ZDO
            cmd = next(c for c in Definition[subsystem] if c["ID"] == cluster)
''', '''        if profile == ZDO_PROFILE_ID:
            subsystem, command_id = Subsystem.ZDO, cluster
        else:
            subsystem = Subsystem.AF
            command_id = 1 if addr_mode is None else 2
        cmd = next(c for c in Definition[subsystem] if c["ID"] == command_id)
'''), (Z, '''        if name == "dataRequest":
            payload = {
                "dstaddr": int(nwk),
                "destendpoint": dst_ep,
                "srcendpoint": src_ep,
                "clusterid": cluster,
                "transid": sequence,
                "options": 0,
                "radius": radius,
                "len": len(data),
                "data": data,
            }
        elif name == "dataRequestExt":
            payload = {
                "dstaddrmode": addr_mode,
                "dstaddr": nwk,
                "destendpoint": dst_ep,
                "dstpanid": 0,
                "srcendpoint": src_ep,
                "clusterid": cluster,
                "transid": sequence,
                "options": 0,
                "radius": radius,
                "len": len(data),
                "data": data,
            }
''', '''        message = dict(
            destendpoint=dst_ep,
            srcendpoint=src_ep,
            clusterid=cluster,
            transid=sequence,
            options=0,
            radius=radius,
            len=len(data),
            data=data,
        )
        if name == "dataRequest":
            payload = {"dstaddr": int(nwk), **message}
        elif name == "dataRequestExt":
            payload = {
                "dstaddrmode": addr_mode,
                "dstaddr": nwk,
                "dstpanid": 0,
                **message,
            }
''')])
R("zpi-prefix", [(Z, '''            payload = cls.read_parameters(
                nwk.to_bytes(2, "little") + data[1:]
                if parameters and parameters[0]["name"] == "dstaddr"
                else data[1:],
                parameters,
            )
''', '''            body = data[1:]
            if parameters and parameters[0]["name"] == "dstaddr":
                body = nwk.to_bytes(2, "little") + body
            payload = cls.read_parameters(body, parameters)
''')])
R("app-handle-split", [(P, '''        try:
            if ieee:
                device = self.get_device(ieee=ieee)
            else:
                device = self.get_device(nwk=nwk)
        except KeyError:
            LOGGER.warning(
                "Received frame from unknown device: %s", ieee if ieee else nwk
            )
            return

        device.radio_details(lqi, rssi)
''', '''        device = self._find_device(ieee, nwk)
        if device is None:
            return

        device.radio_details(lqi, rssi)
'''), (P, '''    def set_led(self''', '''    def _find_device(self, ieee, nwk):
        try:
            return self.get_device(ieee=ieee) if ieee else self.get_device(nwk=nwk)
        except KeyError:
            LOGGER.warning("Received frame from unknown device: %s", ieee or nwk)
            return None

    def set_led(self''')])
R("app-handle-dispatch", [(P, '''        if obj.command in IGNORED:
            return

        if obj.subsystem == t.Subsystem.ZDO and obj.command == "mgmtPermitJoinRsp":
            self.set_led(LedMode.On)

        if obj.subsystem == t.Subsystem.ZDO and obj.command == "permitJoinInd":
            self.set_led(LedMode.Off if obj.payload["duration"] == 0 else LedMode.On)
            return

        if obj.subsystem == t.Subsystem.ZDO and obj.command in REQUESTS:
''', '''        if obj.command in IGNORED:
            return

        is_zdo = obj.subsystem == t.Subsystem.ZDO
        if is_zdo:
            if obj.command == "mgmtPermitJoinRsp":
                self.set_led(LedMode.On)
            elif obj.command == "permitJoinInd":
                closed = obj.payload["duration"] == 0
                self.set_led(LedMode.Off if closed else LedMode.On)
                return

        if is_zdo and obj.command in REQUESTS:
'''), (P, '''            tsn = bytes([obj.sequence])
            data = tsn + frame.data[prefix_length:]
''', '''            data = bytes([obj.sequence]) + frame.data[prefix_length:]
''')])
R("app-frame-later", [(P, '''        frame = obj.to_unpi_frame()

        nwk = obj.payload["srcaddr"] if "srcaddr" in obj.payload else None
        ieee = obj.payload["ieeeaddr"] if "ieeeaddr" in obj.payload else None
''', '''        nwk = obj.payload.get("srcaddr")
        ieee = obj.payload.get("ieeeaddr")
'''), (P, '''            tsn = bytes([obj.sequence])
            data = tsn + frame.data[prefix_length:]
''', '''            tsn = bytes([obj.sequence])
            data = tsn + obj.to_unpi_frame().data[prefix_length:]
'''), (P, '''            obj.command == "incomingMsg" or obj.command == "incomingMsgExt"
''', '''            obj.command in ("incomingMsg", "incomingMsgExt")
''')])
R("app-join-helper", [(P, '''        if obj.subsystem == t.Subsystem.ZDO and obj.command == "endDeviceAnnceInd":
            nwk = obj.payload["nwkaddr"]
            LOGGER.info("New device joined: 0x%04x, %s", nwk, ieee)
            self.handle_join(nwk, ieee, 0)
            obj.sequence = 0
''', '''        if obj.subsystem == t.Subsystem.ZDO and obj.command == "endDeviceAnnceInd":
            nwk = self._device_announced(obj)
            obj.sequence = 0
'''), (P, '''    def set_led(self''', '''    def _device_announced(self, obj):
        nwk, ieee = obj.payload["nwkaddr"], obj.payload["ieeeaddr"]
        LOGGER.info("New device joined: 0x%04x, %s", nwk, ieee)
        self.handle_join(nwk, ieee, 0)
        return nwk

    def set_led(self''')])
R("app-send-helper", [(P, '''            async with self._semaphore:
                await self._api.request_raw(obj, waiter_id)

        except CommandError as ex:
            return ex.status, "Couldn't enqueue send data request: {}".format(ex)

        return 0, "message send success"

    async def broadcast(''', '''            async with self._semaphore:
                await self._api.request_raw(obj, waiter_id)

            return 0, "message send success"

        except CommandError as ex:
            return ex.status, "Couldn't enqueue send data request: {}".format(ex)

    async def broadcast('''), (P, '''            async with self._semaphore:
                await self._api.request_raw(obj)
                """
                As a broadcast command is not confirmed and thus immediately returns
                (contrary to network address requests) we will give the
                command some time to 'settle' in the network.
                """
                await asyncio.sleep(0.2)
''', '''            await self._send_and_settle(obj)
'''), (P, '''            async with self._semaphore:
                await self._api.request_raw(obj, waiter_id)
                """
                As a group command is not confirmed and thus immediately returns
                (contrary to network address requests) we will give the
                command some time to 'settle' in the network.
                """
                await asyncio.sleep(0.2)
''', '''            await self._send_and_settle(obj, waiter_id)
'''), (P, '''    async def permit_ncp(''', '''    async def _send_and_settle(self, obj, waiter_id=None):
        """
        As group commands and broadcasts are not confirmed and thus immediately return
        (contrary to network address requests) we will give the
        command some time to 'settle' in the network.
        """
        async with self._semaphore:
            await self._api.request_raw(obj, waiter_id)
            await asyncio.sleep(0.2)

    async def permit_ncp(''')])
R("app-request-order", [(P, '''            waiter_id = None
            if expect_reply:
                waiter = self._api.create_response_waiter(obj, sequence)
                if waiter:
                    waiter_id = waiter.id

            async with self._semaphore:
                await self._api.request_raw(obj, waiter_id)
''', '''            waiter = None
            if expect_reply:
                waiter = self._api.create_response_waiter(obj, sequence)

            async with self._semaphore:
                await self._api.request_raw(obj, waiter.id if waiter else None)
''')])
R("app-semaphore-acquire", [(P, '''        async with self._semaphore:
            await self._api.request(Subsystem.ZDO, "mgmtPermitJoinReq", payload)
''', '''        await self._semaphore.acquire()
        try:
            await self._api.request(Subsystem.ZDO, "mgmtPermitJoinReq", payload)
        finally:
            self._semaphore.release()
''')])
R("app-led-early", [(P, '''        if self.version.get("product", ZnpVersion.zStack3x0) != ZnpVersion.zStack3x0:
            try:
                loop = asyncio.get_event_loop()
                loop.create_task(
                    self._api.request(
                        Subsystem.UTIL, "ledControl", {"ledid": 3, "mode": mode}
                    )
                )
            except Exception as ex:
                LOGGER.warning("Can't set LED: %s", ex)
''', '''        product = self.version.get("product", ZnpVersion.zStack3x0)
        if product == ZnpVersion.zStack3x0:
            return
        payload = {"ledid": 3, "mode": mode}
        try:
            asyncio.create_task(
                self._api.request(Subsystem.UTIL, "ledControl", payload)
            )
        except Exception as ex:
            LOGGER.warning("Can't set LED: %s", ex)
''')])
R("app-startup-split", [(P, '''        data = await self._api.request(Subsystem.UTIL, "getDeviceInfo", {})
        self._ieee = data.payload["ieeeaddr"]
        self._nwk = data.payload["shortaddr"]

        # add coordinator
        self.devices[self._ieee] = Coordinator(self, self._ieee, self._nwk)
''', '''        await self._add_coordinator()

    async def _add_coordinator(self):
        result = await self._api.request(Subsystem.UTIL, "getDeviceInfo", {})
        self._ieee, self._nwk = result.payload["ieeeaddr"], result.payload["shortaddr"]
        self.devices[self._ieee] = Coordinator(self, self._ieee, self._nwk)
'''), (P, '''        concurrent = 16 if self.version["product"] == ZnpVersion.zStack3x0 else 2
        LOGGER''', '''        concurrent = CONCURRENT.get(self.version["product"], 2)
        LOGGER'''), (P, '''IGNORED = (''', '''CONCURRENT = {ZnpVersion.zStack3x0.value: 16}

IGNORED = (''')])
R("app-reconnect", [(P, '''            if self._api is not None:
                self._api.close()
            await asyncio.sleep(5)
''', '''            await self._close_and_wait()
'''), (P, '''    async def startup(self''', '''    async def _close_and_wait(self, seconds=5):
        if self._api is not None:
            self._api.close()
        await asyncio.sleep(seconds)

    async def startup(self''')])
R("znp-write-helper", [(S, '''    await znp.request(Subsystem.SYS, "osalNvWrite", Items.zdoDirectCb())
    await znp.request(
        Subsystem.SYS, "osalNvWrite", Items.channelList(options.channelList)
    )
    await znp.request(Subsystem.SYS, "osalNvWrite", Items.panID(options.panID))
    await znp.request(
        Subsystem.SYS, "osalNvWrite", Items.extendedPanID(options.extendedPanID)
    )
''', '''    for item in (
        Items.zdoDirectCb(),
        Items.channelList(options.channelList),
        Items.panID(options.panID),
        Items.extendedPanID(options.extendedPanID),
    ):
        await write_item(znp, item)
'''), (S, '''async def initialise(znp''', '''async def write_item(znp: API, item):
    return await znp.request(Subsystem.SYS, "osalNvWrite", item)


async def initialise(znp''')])
R("znp-order", [(S, '''    await znp.request(Subsystem.SYS, "osalNvWrite", Items.zdoDirectCb())
    await znp.request(
        Subsystem.SYS, "osalNvWrite", Items.channelList(options.channelList)
    )
    await znp.request(Subsystem.SYS, "osalNvWrite", Items.panID(options.panID))
''', '''    await znp.request(Subsystem.SYS, "osalNvWrite", Items.panID(options.panID))
    await znp.request(
        Subsystem.SYS, "osalNvWrite", Items.channelList(options.channelList)
    )
    await znp.request(Subsystem.SYS, "osalNvWrite", Items.zdoDirectCb())
''')])
R("znp-validate-order", [(S, '''        await validate_item(znp, Items.channelList(options.channelList), "channelList")
        await validate_item(
            znp,
            Items.networkKeyDistribute(options.networkKeyDistribute),
            "networkKeyDistribute",
        )
''', '''        await validate_item(
            znp,
            Items.networkKeyDistribute(options.networkKeyDistribute),
            "networkKeyDistribute",
        )
        await validate_item(znp, Items.channelList(options.channelList), "channelList")
''')])
R("znp-is-valid", [(S, '''    try:
        await validate_item(
            znp,
            Items.znpHasConfigured(version),
            "hasConfigured",
            expected_status=[0, 2],
        )
        hasConfigured = True
    except (AssertionError, CommandError):
        hasConfigured = False

    if''', '''    hasConfigured = await is_configured(znp, version)

    if'''), (S, '''async def start_znp(''', '''async def is_configured(znp: API, version):
    try:
        await validate_item(
            znp,
            Items.znpHasConfigured(version),
            "hasConfigured",
            expected_status=[0, 2],
        )
    except (AssertionError, CommandError):
        return False
    return True


async def start_znp('''), (S, '''        if version == ZnpVersion.zStack12:
            # zStack12 allows to restore a network without restoring a backup
            # (as long as the network key, panID and channel don't change).
            # If the device has not been configured yet we assume that this is the case.
            # If we always return 'reset'
            # the controller clears the database on a reflash of the stick.
            result = "reset" if hasConfigured else "restored"
        else:
            result = "reset"
''', '''        # zStack12 allows to restore a network without restoring a backup
        # (as long as the network key, panID and channel don't change).
        # If the device has not been configured yet we assume that this is the case.
        # If we always return 'reset'
        # the controller clears the database on a reflash of the stick.
        restored = version == ZnpVersion.zStack12 and not hasConfigured
        result = "restored" if restored else "reset"
''')])
R("znp-needs-flat", [(S, '''        except AssertionError as e:
            if version == ZnpVersion.zStack30x or version == ZnpVersion.zStack3x0:
                # When the panID has never been set, it will be [0xFF, 0xFF].
                result = await znp.request(
                    Subsystem.SYS, "osalNvRead", Items.panID(options.panID)
                )
                LOGGER.debug("PANID: %s", result.payload["value"])
                if result.payload["value"] == bytes([0xFF, 0xFF]):
                    LOGGER.debug("Skip enforcing panID because a random panID is used")
                else:
                    raise e
            else:
                raise e
''', '''        except AssertionError:
            if version not in (ZnpVersion.zStack30x, ZnpVersion.zStack3x0):
                raise
            # When the panID has never been set, it will be [0xFF, 0xFF].
            result = await znp.request(
                Subsystem.SYS, "osalNvRead", Items.panID(options.panID)
            )
            LOGGER.debug("PANID: %s", result.payload["value"])
            if result.payload["value"] != b"\\xff\\xff":
                raise
            LOGGER.debug("Skip enforcing panID because a random panID is used")
''')])
R("znp-register-filter", [(S, '''    for endpoint in Endpoints:
        if endpoint.endpoint in active_ep.payload["activeeplist"]:
            LOGGER.debug("Endpoint '%s' already registered", endpoint.endpoint)
        else:
            LOGGER.debug("Registering endpoint '%s'", endpoint.endpoint)
            await znp.request(Subsystem.AF, "register", vars(endpoint))
''', '''    registered = set(active_ep.payload["activeeplist"])
    missing = [e for e in Endpoints if e.endpoint not in registered]
    for endpoint in missing:
        LOGGER.debug("Registering endpoint '%s'", endpoint.endpoint)
        await znp.request(Subsystem.AF, "register", dict(vars(endpoint)))
''')])
R("znp-register-wait", [(S, '''    active_ep = await active_ep_response.wait()

    for''', '''    active_ep = await active_ep_response.wait()
    active = active_ep.payload["activeeplist"]
    LOGGER.debug("Active endpoints: %s", active)

    for'''), (S, '''        if endpoint.endpoint in active_ep.payload["activeeplist"]:
            LOGGER.debug("Endpoint '%s' already registered", endpoint.endpoint)
        else:
            LOGGER.debug("Registering endpoint '%s'", endpoint.endpoint)
            await znp.request(Subsystem.AF, "register", vars(endpoint))
''', '''        if endpoint.endpoint in active:
            LOGGER.debug("Endpoint '%s' already registered", endpoint.endpoint)
            continue
        LOGGER.debug("Registering endpoint '%s'", endpoint.endpoint)
        await znp.request(Subsystem.AF, "register", vars(endpoint))
''')])
R("znp-boot-flat", [(S, '''    if result.payload["devicestate"] != Common.devStates["ZB_COORD"]:
        LOGGER.debug("Start ZNP as coordinator...")
        started = znp.wait_for(
            CommandType.AREQ, Subsystem.ZDO, "stateChangeInd", {"state": 9}, 60000
        )
        await znp.request(
            Subsystem.ZDO, "startupFromApp", {"startdelay": 100}, None, [0, 1]
        )
        await started.wait()
        LOGGER.info("ZNP started as coordinator")
    else:
        LOGGER.info("ZNP is already started as coordinator")
''', '''    if result.payload["devicestate"] == Common.devStates["ZB_COORD"]:
        LOGGER.info("ZNP is already started as coordinator")
        return

    LOGGER.debug("Start ZNP as coordinator...")
    started = started_as_coordinator(znp)
    await znp.request(
        Subsystem.ZDO, "startupFromApp", {"startdelay": 100}, None, [0, 1]
    )
    await started.wait()
    LOGGER.info("ZNP started as coordinator")


def started_as_coordinator(znp: API):
    return znp.wait_for(
        CommandType.AREQ, Subsystem.ZDO, "stateChangeInd", {"state": 9}, 60000
    )
''')])
R("nv-items-helper", [(N, '''    def panID(panID):
        return {
            "id": NvItemsIds.PANID,
            "len": 0x02,
            "offset": 0x00,
            "value": bytes([panID & 0xFF, (panID >> 8) & 0xFF]),
        }
''', '''    def panID(panID):
        return item(NvItemsIds.PANID, int(panID & 0xFFFF).to_bytes(2, "little"))
'''), (N, '''    def networkKeyDistribute(distribute):
        return {
            "id": NvItemsIds.PRECFGKEYS_ENABLE,
            "len": 0x01,
            "offset": 0x00,
            "value": b"\\x01" if distribute else b"\\x00",
        }
''', '''    def networkKeyDistribute(distribute):
        return item(NvItemsIds.PRECFGKEYS_ENABLE, bytes([1 if distribute else 0]))
'''), (N, '''class Items:
''', '''def item(id, value):
    return {"id": id, "offset": 0, "len": len(value), "value": value}


class Items:
''')])
R("nv-items-marker", [(N, '''    def znpHasConfigured(version):
        return {
            "id": NvItemsIds.ZNP_HAS_CONFIGURED_ZSTACK1
            if version == ZnpVersion.zStack12
            else NvItemsIds.ZNP_HAS_CONFIGURED_ZSTACK3,
''', '''    def markerId(version):
        if version == ZnpVersion.zStack12:
            return NvItemsIds.ZNP_HAS_CONFIGURED_ZSTACK1
        return NvItemsIds.ZNP_HAS_CONFIGURED_ZSTACK3

    @staticmethod
    def znpHasConfigured(version):
        return {
            "id": Items.markerId(version),
''')])
R("types-options", [(T, '''        self.panID = config[zigpy.config.CONF_NWK_PAN_ID]
        if self.panID is None:
            self.panID = t.PanId(0x1A62)
''', '''        pan_id = config[zigpy.config.CONF_NWK_PAN_ID]
        self.panID = t.PanId(0x1A62) if pan_id is None else pan_id
'''), (T, '''        self.extendedPanID = config[zigpy.config.CONF_NWK_EXTENDED_PAN_ID] or (
            t.ExtendedPanId([0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD])
        )
''', '''        self.extendedPanID = config[zigpy.config.CONF_NWK_EXTENDED_PAN_ID]
        if not self.extendedPanID:
            self.extendedPanID = t.ExtendedPanId([0xDD] * 8)
''')])
R("types-is-buffer", [(T, '''        return (
            type == ParameterType.BUFFER
            or type == ParameterType.BUFFER8
            or type == ParameterType.BUFFER16
            or type == ParameterType.BUFFER18
            or type == ParameterType.BUFFER32
            or type == ParameterType.BUFFER42
            or type == ParameterType.BUFFER100
        )
''', '''        return ParameterType(type).name.startswith("BUFFER")
''')])
R("definition-order", [(D, '''            name: "dataRequestSrcRtg",
            ID: 3,
            type: CommandType.SREQ,
''', '''            ID: 3,
            type: CommandType.SREQ,
            name: "dataRequestSrcRtg",
''')])
