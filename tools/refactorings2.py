"""More behaviour-preserving edits, in other styles: (name, [(file, old, new), ...])."""
U="zigpy_cc/uart.py"; A="zigpy_cc/api.py"; Z="zigpy_cc/zpi_object.py"; B="zigpy_cc/buffalo.py"; P="zigpy_cc/zigbee/application.py"; D="zigpy_cc/definition.py"; S="zigpy_cc/zigbee/start_znp.py"; N="zigpy_cc/zigbee/nv_items.py"; T="zigpy_cc/types.py"
REFAC = []


def ref(name, *edits):
    REFAC.append((name, list(edits)))


ref("uart-struct-pack", (U, '''        res = bytes([SOF, length, cmd0, self.command_id])
        res += self.data
        fcs = self.calculate_checksum(res[1:])

        return res + bytes([fcs])
''', '''        head = struct.pack("BBB", length, cmd0, self.command_id)
        body = head + self.data

        return struct.pack("B", SOF) + body + struct.pack("B", self.calculate_checksum(body))
'''), (U, "import asyncio\n", "import asyncio\nimport struct\n"))
ref("uart-join", (U, '''        res = bytes([SOF, length, cmd0, self.command_id])
        res += self.data
        fcs = self.calculate_checksum(res[1:])

        return res + bytes([fcs])
''', '''        body = b"".join((bytes((length, cmd0, self.command_id)), self.data))
        return b"".join((bytes((SOF,)), body, bytes((self.calculate_checksum(body),))))
'''))
ref("uart-cmd0-divmod", (U, '''        subsystem = buffer[PositionCmd0] & 0x1F
        command_type = (buffer[PositionCmd0] & 0xE0) >> 5
''', '''        command_type, subsystem = divmod(buffer[PositionCmd0], 0x20)
'''), (U, '''((self.command_type << 5) & 0xE0) | (self.subsystem & 0x1F)''', '''self.command_type * 32 + self.subsystem'''))
ref("uart-parser-needed", (U, '''    def write(self, b: int):
''', '''    @property
    def complete(self) -> bool:
        if len(self.buffer) < MinMessageLength:
            return False
        return len(self.buffer) >= DataStart + self.buffer[PositionDataLength] + 1

    def write(self, b: int):
'''), (U, '''            if len(self.buffer) >= MinMessageLength:
                dataLength''', '''            if self.complete:
                dataLength'''), (U, '''                if len(self.buffer) >= frameLength:
                    frameBuffer = self.buffer[0:frameLength]
                    self.buffer = self.buffer[frameLength:]

                    frame = UnpiFrame.from_buffer(dataLength, fcsPosition, frameBuffer)

                    return frame
''', '''                frameBuffer = self.buffer[0:frameLength]
                self.buffer = self.buffer[frameLength:]

                return UnpiFrame.from_buffer(dataLength, fcsPosition, frameBuffer)
'''))
ref("uart-send-write", (U, '''        LOGGER.debug("Send: %s", data)
        self._transport.write(data)
''', '''        LOGGER.debug("Send: %s", data)
        self.write(data)
'''))
ref("uart-data-received-log", (U, '''        found = False
        for b in data:
            try:
                frame = self._parser.write(b)
                if frame is not None:
                    found = True
                    LOGGER.debug("Frame received: %s", frame)
                    self._api.data_received(frame)
            except Exception as e:
                LOGGER.error("Error while processing frame: %s", e, exc_info=e)

        if not found:
            LOGGER.info("Bytes received: %s", data)
''', '''        count = 0
        write = self._parser.write
        for b in data:
            try:
                frame = write(b)
                if frame is None:
                    continue
                count += 1
                LOGGER.debug("Frame %d received: %s", count, frame)
                self._api.data_received(frame)
            except Exception as e:
                LOGGER.exception("Error while processing frame: %s", e)

        if count == 0:
            LOGGER.info("Bytes received: %s", data)
'''))
ref("uart-detect-unpack", (U, '''    if len(devices) < 1:
        raise serial.SerialException("Unable to find TI CC device using auto mode")
    if len(devices) > 1:
''', '''    if not devices:
        raise serial.SerialException("Unable to find TI CC device using auto mode")

    device, *others = devices
    if others:
'''), (U, "    return devices[0]\n", "    return device\n"))
ref("uart-connect-kwargs", (U, '''    xonxoff, rtscts = False, False
    if config[CONF_FLOW_CONTROL] == "hardware":
        xonxoff, rtscts = False, True
    elif config[CONF_FLOW_CONTROL] == "software":
        xonxoff, rtscts = True, False
''', '''    flow = {
        "hardware": {"xonxoff": False, "rtscts": True},
        "software": {"xonxoff": True, "rtscts": False},
    }.get(config[CONF_FLOW_CONTROL], {"xonxoff": False, "rtscts": False})
'''), (U, '''        xonxoff=xonxoff,
        rtscts=rtscts,
''', '''        **flow,
'''))
ref("uart-connect-loop", (U, '''    if loop is None:
        loop = asyncio.get_event_loop()
''', '''    loop = loop or asyncio.get_event_loop()
'''), (U, '''    port, baudrate = config[CONF_DEVICE_PATH], config[CONF_DEVICE_BAUDRATE]
    if port == "auto":
        device = detect_port()
        LOGGER.info("Auto select TI CC device: %s", device)
        port = device.device
''', '''    port = config[CONF_DEVICE_PATH]
    if port == "auto":
        port = auto_port()
    baudrate = config[CONF_DEVICE_BAUDRATE]
'''), (U, '''async def connect(config''', '''def auto_port() -> str:
    device = detect_port()
    LOGGER.info("Auto select TI CC device: %s", device)
    return device.device


async def connect(config'''))
ref("uart-fstring", (U, '''            LOGGER.warning("Invalid checksum: 0x%s, data: 0x%s", checksum, buffer)
            return None
''', '''            LOGGER.warning(f"Invalid checksum: 0x{checksum:02x}, data: 0x{buffer.hex()}")
            return None
'''))
ref("uart-guard-transport", (U, '''        if self._connected_future:
            self._connected_future.set_result(True)
''', '''        if self._connected_future and not self._connected_future.done():
            self._connected_future.set_result(True)
'''))

ref("api-match-all", (A, '''        if matcher.payload:
            for f, v in matcher.payload.items():
                if v != obj.payload[f]:
                    return False

        return True
''', '''        return all(obj.payload[f] == v for f, v in (matcher.payload or {}).items())
'''))
ref("api-match-any-not", (A, '''        if matcher.payload:
            for f, v in matcher.payload.items():
                if v != obj.payload[f]:
                    return False

        return True
''', '''        wanted = matcher.payload
        if not wanted:
            return True
        return not any(wanted[field] != obj.payload[field] for field in wanted)
'''))
ref("api-count", (A, '''        self._waiter_id = 0
''', '''        self._waiter_ids = itertools.count()
'''), (A, '''            self._waiter_id,
            command_type,
''', '''            next(self._waiter_ids),
            command_type,
'''), (A, '''        self._waiter_id += 1

''', '''
'''), (A, "import asyncio\n", "import asyncio\nimport itertools\n"))
ref("api-callback-pop-default", (A, '''                try:
                    self._waiters.pop(waiter.id)
                except KeyError:
                    LOGGER.warning("Waiter not found: %s", waiter)
''', '''                if self._waiters.pop(waiter.id, None) is None:
                    LOGGER.warning("Waiter not found: %s", waiter)
'''))
ref("api-timer-method", (A, '''        def callback():
            if not waiter.future.done() or waiter.future.cancelled():
                LOGGER.warning(
                    "No response for: %s %s %s %s",
                    command_type.name,
                    subsystem.name,
                    command,
                    payload,
                )
                try:
                    self._waiters.pop(waiter.id)
                except KeyError:
                    LOGGER.warning("Waiter not found: %s", waiter)

        asyncio.get_event_loop().call_later(timeout / 1000 + 0.1, callback)

        return waiter
''', '''        asyncio.get_event_loop().call_later(
            timeout / 1000 + 0.1, self._expire, waiter
        )

        return waiter

    def _expire(self, waiter: Waiter) -> None:
        if waiter.future.done() and not waiter.future.cancelled():
            return

        LOGGER.warning("No response for: %s", waiter.matcher)
        try:
            del self._waiters[waiter.id]
        except KeyError:
            LOGGER.warning("Waiter not found: %s", waiter)
'''))
ref("api-timer-partial", (A, '''        asyncio.get_event_loop().call_later(timeout / 1000 + 0.1, callback)
''', '''        loop = asyncio.get_event_loop()
        loop.call_later(0.1 + timeout / 1000.0, functools.partial(callback))
'''), (A, "import asyncio\n", "import asyncio\nimport functools\n"))
ref("api-timeouts-table", (A, '''            timeout = (
                20000
                if obj.command == "bdbStartCommissioning"
                or obj.command == "startupFromApp"
                else Timeouts.SREQ
            )
''', '''            timeout = SLOW_COMMANDS.get(obj.command, Timeouts.SREQ)
'''), (A, '''class Matcher(Repr):
''', '''SLOW_COMMANDS = {"bdbStartCommissioning": 20000, "startupFromApp": 20000}


class Matcher(Repr):
'''))
ref("api-status-first", (A, '''            if (
                result
                and "status" in result.payload
                and result.payload["status"] not in expected_status
            ):
                if waiter_id in self._waiters:
                    self._waiters.pop(waiter_id).set_result(result)

                raise CommandError(
                    result.payload["status"],
                    "SREQ '{}' failed with status '{}' (expected '{}')".format(
                        obj.command, result.payload["status"], expected_status
                    ),
                )
            else:
                return result
''', '''            status = result.payload.get("status") if result else None
            if status is None or status in expected_status:
                return result

            follow_up = self._waiters.pop(waiter_id, None)
            if follow_up is not None:
                follow_up.set_result(result)

            raise CommandError(
                status,
                f"SREQ '{obj.command}' failed with status '{status}' "
                f"(expected '{expected_status}')",
            )
'''))
ref("api-default-status-tuple", (A, '''        if expected_status is None:
            expected_status = [0]
''', '''        expected_status = (0,) if expected_status is None else tuple(expected_status)
'''))
ref("api-handlers-getattr", (A, '''        try:
            getattr(self, "_handle_%s" % (obj.command,))(obj)
        except AttributeError:
            pass
''', '''        handler = getattr(self, "_handle_" + obj.command, None)
        if handler is not None:
            try:
                handler(obj)
            except AttributeError:
                pass
'''))
ref("api-suppress", (A, '''        try:
            getattr(self, "_handle_%s" % (obj.command,))(obj)
        except AttributeError:
            pass
''', '''        with contextlib.suppress(AttributeError):
            getattr(self, f"_handle_{obj.command}")(obj)
'''), (A, "import asyncio\n", "import asyncio\nimport contextlib\n"))
ref("api-close-swap", (A, '''        if self._uart:
            self._uart.close()
            self._uart = None
''', '''        gateway, self._uart = self._uart, None
        if gateway:
            gateway.close()
'''))
ref("api-probe-flag", (A, '''        try:
            await asyncio.wait_for(api._probe(), timeout=COMMAND_TIMEOUT)
            return True
        except (''', '''        found = False
        try:
            await asyncio.wait_for(api._probe(), timeout=COMMAND_TIMEOUT)
            found = True
        except ('''), (A, '''            api.close()

        return False
''', '''            api.close()

        return found
'''))
ref("api-raw-reset-first", (A, '''        frame = obj.to_unpi_frame()

        if obj.command_type == CommandType.SREQ:
''', '''        frame = obj.to_unpi_frame()
        kind = obj.command_type

        if kind not in (CommandType.SREQ, CommandType.AREQ):
            LOGGER.warning("Unknown type '%s'", kind)
            raise Exception("Unknown type '{}'".format(kind))

        if kind == CommandType.SREQ:
'''))
ref("api-waiter-sequence-local", (A, '''                self._waiters.pop(waiter_id)
                waiter.set_result(obj)
                if waiter.sequence is not None:
                    obj.sequence = waiter.sequence
                    break
''', '''                del self._waiters[waiter_id]
                number = waiter.sequence
                waiter.set_result(obj)
                if number is None:
                    continue
                obj.sequence = number
                break
'''))

ref("buffalo-struct", (B, '''        self.buffer += value.to_bytes(length, "little", signed=signed)
''', '''        data = value.to_bytes(length=length, byteorder="little", signed=signed)
        self.buffer = self.buffer + data
'''))
ref("buffalo-lists", (B, '''        elif type == ParameterType.LIST_UINT8:
            for v in value:
                self.write(v)
        elif type == ParameterType.LIST_UINT16:
            for v in value:
                self.write(v, 2)
''', '''        elif type in (ParameterType.LIST_UINT8, ParameterType.LIST_UINT16):
            width = 1 if type == ParameterType.LIST_UINT8 else 2
            for v in value:
                self.write(v, width)
'''))
ref("buffalo-read-table", (B, '''            if type == ParameterType.LIST_UINT8:
                for i in range(0, options.length):
                    res.append(self.read_int())
            elif type == ParameterType.LIST_UINT16:
                for i in range(0, options.length):
                    res.append(self.read_int(2))
            elif type == ParameterType.LIST_NEIGHBOR_LQI:
                for i in range(0, options.length):
                    res.append(self.read_neighbor_lqi())
            else:
                raise TODO("read type %d", type)
''', '''            if type == ParameterType.LIST_UINT8:
                read = self.read_int
            elif type == ParameterType.LIST_UINT16:
                read = self.read_uint16
            elif type == ParameterType.LIST_NEIGHBOR_LQI:
                read = self.read_neighbor_lqi
            else:
                raise TODO("read type %d", type)
            for _ in range(options.length):
                res.append(read())
'''), (B, '''    def read(self, length=1):
''', '''    def read_uint16(self):
        return self.read_int(2)

    def read(self, length=1):
'''))
ref("buffalo-end", (B, '''        if self.position + length > self._len:
            raise OverflowError
        res = self.buffer[self.position : self.position + length]
        self.position += length
        return res
''', '''        begin = self.position
        end = begin + length
        if end > len(self):
            raise OverflowError("the payload ends too early")
        self.position = end
        return self.buffer[begin:end]
'''))
ref("buffalo-lqi-shift", (B, '''        item["deviceType"] = value1 & 0x03
        item["rxOnWhenIdle"] = (value1 & 0x0C) >> 2
        item["relationship"] = (value1 & 0x70) >> 4
''', '''        item["deviceType"] = value1 % 4
        item["rxOnWhenIdle"] = (value1 >> 2) & 3
        item["relationship"] = (value1 >> 4) & 7
'''), (B, '''            value["deviceType"]
            | (value["rxOnWhenIdle"] * 4)
            | (value["relationship"] * 16)
''', '''            (value["relationship"] << 4)
            | (value["rxOnWhenIdle"] << 2)
            | value["deviceType"]
'''))
ref("buffalo-suffixes", (B, '''            if (
                name.endswith("addr")
                or name.endswith("address")
                or name.endswith("addrofinterest")
            ):
''', '''            if name.endswith(("addr", "address", "addrofinterest")):
'''))

ref("zpi-payload-comprehension", (Z, '''        data = Buffalo(b"")

        for p in self.parameters:
            value = self.payload[p["name"]]
            data.write_parameter(p["parameterType"], value, {})
''', '''        data = Buffalo(b"")
        values = [(p["parameterType"], self.payload[p["name"]]) for p in self.parameters]
        for parameter_type, value in values:
            data.write_parameter(parameter_type, value, {})
'''))
ref("zpi-layout-helper", (Z, '''        parameters = (
            cmd["response"]
            if frame.command_type == CommandType.SRSP
            else cmd["request"]
        )
        payload = cls.read_parameters(frame.data, parameters)
''', '''        parameters = cls.layout(cmd, frame.command_type)
        payload = cls.read_parameters(frame.data, parameters)
'''), (Z, '''    @classmethod
    def from_unpi_frame(cls, frame):
''', '''    @staticmethod
    def layout(cmd, command_type):
        """The parameters a frame of this type has."""
        if command_type == CommandType.SRSP:
            return cmd["response"]
        return cmd["request"]

    @classmethod
    def from_unpi_frame(cls, frame):
'''))
ref("zpi-loop-find", (Z, '''        cmd = next(
            c for c in Definition[frame.subsystem] if c["ID"] == frame.command_id
        )
''', '''        for cmd in Definition[frame.subsystem]:
            if cmd["ID"] == frame.command_id:
                break
        else:
            raise ValueError("unknown command {}".format(frame.command_id))
'''))
ref("zpi-read-enumerate", (Z, '''        res = {}
        length = None
        start_index = None
        for p in parameters:
            options = BuffaloOptions()
            name = p["name"]
            param_type = p["parameterType"]
            if param_type in BufferAndListTypes:
                if isinstance(length, int):
                    options.length = length

                if param_type == ParameterType.LIST_ASSOC_DEV:
                    if isinstance(start_index, int):
                        options.startIndex = start_index

            res[name] = buffalo.read_parameter(name, param_type, options)

            # For LIST_ASSOC_DEV, we need to grab the start_index which is
            # right before the length
            start_index = length
            # When reading a buffer, assume that the previous parsed parameter
            # contains the length of the buffer
            length = res[name]

        return res
''', '''        res = {}
        # the last two values: a list or buffer is preceded by its length, and
        # LIST_ASSOC_DEV by a start index before that
        before = [None, None]
        for p in parameters:
            options = BuffaloOptions()
            if p["parameterType"] in BufferAndListTypes:
                start_index, length = before
                options.length = length if isinstance(length, int) else None
                if p["parameterType"] == ParameterType.LIST_ASSOC_DEV:
                    options.startIndex = (
                        start_index if isinstance(start_index, int) else None
                    )
            value = buffalo.read_parameter(p["name"], p["parameterType"], options)
            res[p["name"]] = value
            before = [before[1], value]

        return res
'''))

ref("app-payload-get", (P, '''        nwk = obj.payload["srcaddr"] if "srcaddr" in obj.payload else None
        ieee = obj.payload["ieeeaddr"] if "ieeeaddr" in obj.payload else None
''', '''        payload = obj.payload
        nwk, ieee = payload.get("srcaddr"), payload.get("ieeeaddr")
'''))
ref("app-areq-positive", (P, '''        if obj.command_type != t.CommandType.AREQ:
            return

        frame = obj.to_unpi_frame()
''', '''        if obj.command_type == t.CommandType.AREQ:
            self._handle_indication(obj)

    def _handle_indication(self, obj: ZpiObject):
        frame = obj.to_unpi_frame()
'''))
ref("app-reply-helper", (P, '''            LOGGER.debug("REPLY for %d %s", obj.sequence, obj.command)
            cluster_id, prefix_length = REQUESTS[obj.command]
            tsn = bytes([obj.sequence])
            data = tsn + frame.data[prefix_length:]
''', '''            cluster_id, data = self._reply(obj, frame)
'''), (P, '''    def set_led(self, mode: LedMode):
''', '''    @staticmethod
    def _reply(obj, frame):
        LOGGER.debug("REPLY for %d %s", obj.sequence, obj.command)
        cluster_id, prefix_length = REQUESTS[obj.command]
        message = bytearray(frame.data[prefix_length:])
        message.insert(0, obj.sequence)
        return cluster_id, bytes(message)

    def set_led(self, mode: LedMode):
'''))
ref("app-kwargs-device", (P, '''            if ieee:
                device = self.get_device(ieee=ieee)
            else:
                device = self.get_device(nwk=nwk)
        except KeyError:
''', '''            device = self.get_device(**({"ieee": ieee} if ieee else {"nwk": nwk}))
        except KeyError:
'''))
ref("app-led-helper", (P, '''            self.set_led(LedMode.Off if obj.payload["duration"] == 0 else LedMode.On)
            return
''', '''            is_open = obj.payload["duration"] != 0
            if is_open:
                self.set_led(LedMode.On)
            else:
                self.set_led(LedMode.Off)
            return
'''))
ref("app-ensure-future", (P, '''                loop = asyncio.get_event_loop()
                loop.create_task(
                    self._api.request(
                        Subsystem.UTIL, "ledControl", {"ledid": 3, "mode": mode}
                    )
                )
''', '''                request = self._api.request(
                    Subsystem.UTIL, "ledControl", {"ledid": 3, "mode": mode}
                )
                asyncio.get_event_loop().create_task(request)
'''))
ref("app-broadcast-result", (P, '''        except CommandError as ex:
            return (
                ex.status,
                "Couldn't enqueue send data request for broadcast: {}".format(ex),
            )

        return 0, "broadcast send success"
''', '''        except CommandError as ex:
            message = "Couldn't enqueue send data request for broadcast: {}".format(ex)
            return ex.status, message
        else:
            return 0, "broadcast send success"
'''))
ref("app-permit-range", (P, '''        assert 0 <= time_s <= 254
        payload = {
            "addrmode": AddressMode.ADDR_BROADCAST,
            "dstaddr": BroadcastAddress.ALL_ROUTERS_AND_COORDINATOR,
            "duration": time_s,
            "tcsignificance": 0,
        }
        async with self._semaphore:
            await self._api.request(Subsystem.ZDO, "mgmtPermitJoinReq", payload)
''', '''        assert time_s >= 0 and time_s < 255
        async with self._semaphore:
            await self._api.request(
                Subsystem.ZDO,
                "mgmtPermitJoinReq",
                dict(
                    addrmode=AddressMode.ADDR_BROADCAST,
                    dstaddr=BroadcastAddress.ALL_ROUTERS_AND_COORDINATOR,
                    duration=time_s,
                    tcsignificance=0,
                ),
            )
'''))
ref("app-concurrent-table", (P, '''        concurrent = 16 if self.version["product"] == ZnpVersion.zStack3x0 else 2
''', '''        concurrent = {ZnpVersion.zStack3x0: 16}.get(ZnpVersion(self.version["product"]), 2)
'''))
ref("app-ping-helper", (P, '''        try:
            await self._api.request(Subsystem.SYS, "ping", {"capabilities": 1})
        except CommandError as e:
            raise Exception("Failed to connect to the adapter(%s)", e)

        self.version''', '''        await self._ping()
        self.version'''), (P, '''    async def permit_with_key(''', '''    async def _ping(self):
        try:
            await self._api.request(Subsystem.SYS, "ping", {"capabilities": 1})
        except CommandError as e:
            raise Exception("Failed to connect to the adapter(%s)", e) from e

    async def permit_with_key('''))
ref("app-address-payload", (P, '''        data = await self._api.request(Subsystem.UTIL, "getDeviceInfo", {})
        self._ieee = data.payload["ieeeaddr"]
        self._nwk = data.payload["shortaddr"]
''', '''        info = (await self._api.request(Subsystem.UTIL, "getDeviceInfo", {})).payload
        self._nwk, self._ieee = info["shortaddr"], info["ieeeaddr"]
'''))
ref("app-mrequest-locals", (P, '''            waiter_id = None
            waiter = self._api.create_response_waiter(obj, sequence)
            if waiter:
                waiter_id = waiter.id

            async with self._semaphore:
                await self._api.request_raw(obj, waiter_id)
                """
                As a group''', '''            waiter = self._api.create_response_waiter(obj, sequence)

            async with self._semaphore:
                await self._api.request_raw(obj, waiter.id if waiter else None)
                """
                As a group'''))

ref("znp-writer", (S, '''    await znp.request(
        Subsystem.SYS, "osalNvWrite", Items.channelList(options.channelList)
    )
    await znp.request(Subsystem.SYS, "osalNvWrite", Items.panID(options.panID))
    await znp.request(
        Subsystem.SYS, "osalNvWrite", Items.extendedPanID(options.extendedPanID)
    )

    if version''', '''    write = functools.partial(znp.request, Subsystem.SYS, "osalNvWrite")
    await write(Items.channelList(options.channelList))
    await write(Items.panID(options.panID))
    await write(Items.extendedPanID(options.extendedPanID))

    if version'''), (S, "import asyncio\n", "import asyncio\nimport functools\n"))
ref("znp-inner-write", (S, '''    await znp.request(
        Subsystem.SYS, "osalNvWrite", Items.channelList(options.channelList)
    )
    await znp.request(Subsystem.SYS, "osalNvWrite", Items.panID(options.panID))
    await znp.request(
        Subsystem.SYS, "osalNvWrite", Items.extendedPanID(options.extendedPanID)
    )

    if version''', '''    async def write(item):
        LOGGER.debug("Writing item 0x%04x", item["id"])
        return await znp.request(Subsystem.SYS, "osalNvWrite", item)

    await write(Items.channelList(options.channelList))
    await write(Items.panID(options.panID))
    await write(Items.extendedPanID(options.extendedPanID))

    if version'''))
ref("znp-newer", (S, '''    if version == ZnpVersion.zStack30x or version == ZnpVersion.zStack3x0:
        await znp.request(
            Subsystem.SYS, "osalNvWrite", Items.networkKey(options.networkKey)
        )
''', '''    if version in (ZnpVersion.zStack30x, ZnpVersion.zStack3x0):
        await znp.request(
            Subsystem.SYS, "osalNvWrite", Items.networkKey(options.networkKey)
        )
'''))
ref("znp-commission-helper", (S, '''        started = znp.wait_for(
            CommandType.AREQ, Subsystem.ZDO, "stateChangeInd", {"state": 9}, 60000
        )
        await znp.request(Subsystem.APP_CNF, "bdbStartCommissioning", {"mode": 0x04})
        try:
            await started.wait()
        except Exception:
            raise Exception(
                "Coordinator failed to start, probably the panID is already in use, "
                "try a different panID or channel"
            )

        await znp.request(Subsystem.APP_CNF, "bdbStartCommissioning", {"mode": 0x02})
''', '''        await commission(znp)
'''), (S, '''async def initialise(''', '''async def commission(znp: API):
    """Form the network, then let devices join it."""
    started = znp.wait_for(
        CommandType.AREQ, Subsystem.ZDO, "stateChangeInd", {"state": 9}, 60000
    )
    await znp.request(Subsystem.APP_CNF, "bdbStartCommissioning", {"mode": 0x04})
    try:
        await started.wait()
    except Exception as e:
        raise Exception(
            "Coordinator failed to start, probably the panID is already in use, "
            "try a different panID or channel"
        ) from e

    await znp.request(Subsystem.APP_CNF, "bdbStartCommissioning", {"mode": 0x02})


async def initialise('''))
ref("znp-group-status", (S, '''    if result.payload["status"] == 1:
        await znp.request(
''', '''    is_member = result.payload["status"] != 1
    if not is_member:
        await znp.request(
'''))
ref("znp-register-continue", (S, '''        if endpoint.endpoint in active_ep.payload["activeeplist"]:
            LOGGER.debug("Endpoint '%s' already registered", endpoint.endpoint)
        else:
            LOGGER.debug("Registering endpoint '%s'", endpoint.endpoint)
            await znp.request(Subsystem.AF, "register", vars(endpoint))
''', '''        number = endpoint.endpoint
        if number in active_ep.payload["activeeplist"]:
            LOGGER.debug("Endpoint '%s' already registered", number)
            continue

        LOGGER.debug("Registering endpoint '%s'", number)
        await znp.request(Subsystem.AF, "register", dict(vars(endpoint)))
'''))
ref("znp-result-late", (S, '''        if version == ZnpVersion.zStack12:
            # zStack12 allows to restore a network without restoring a backup
            # (as long as the network key, panID and channel don't change).
            # If the device has not been configured yet we assume that this is the case.
            # If we always return 'reset'
            # the controller clears the database on a reflash of the stick.
            result = "reset" if hasConfigured else "restored"
        else:
            result = "reset"
''', '''        # zStack12 allows to restore a network without restoring a backup
        # (as long as the network key, panID and channel don't change).
        # If the device has not been configured yet we assume that this is the case.
        restored = version == ZnpVersion.zStack12 and not hasConfigured
        result = "restored" if restored else "reset"
'''))
ref("znp-validate-return", (S, '''    if result.payload["value"] != item["value"]:
        msg = "Item '{}' is invalid, got '{}', expected '{}'".format(
            message, result.payload["value"], item["value"]
        )
        LOGGER.debug(msg)
        raise AssertionError(msg)
    else:
        LOGGER.debug("Item '%s' is valid", message)
''', '''    got, expected = result.payload["value"], item["value"]
    if got == expected:
        LOGGER.debug("Item '%s' is valid", message)
        return

    msg = f"Item '{message}' is invalid, got '{got}', expected '{expected}'"
    LOGGER.debug(msg)
    raise AssertionError(msg)
'''))
ref("znp-needs-helper", (S, '''                result = await znp.request(
                    Subsystem.SYS, "osalNvRead", Items.panID(options.panID)
                )
                LOGGER.debug("PANID: %s", result.payload["value"])
                if result.payload["value"] == bytes([0xFF, 0xFF]):
''', '''                if await panIDNeverSet(znp, options):
'''), (S, '''async def needsToBeInitialised(''', '''async def panIDNeverSet(znp: API, options):
    result = await znp.request(
        Subsystem.SYS, "osalNvRead", Items.panID(options.panID)
    )
    LOGGER.debug("PANID: %s", result.payload["value"])
    return result.payload["value"] == b"\\xff\\xff"


async def needsToBeInitialised('''))
ref("znp-boot-early", (S, '''    if result.payload["devicestate"] != Common.devStates["ZB_COORD"]:
        LOGGER.debug("Start ZNP as coordinator...")
        started = znp.wait_for(
            CommandType.AREQ, Subsystem.ZDO, "stateChangeInd", {"state": 9}, 60000
        )
        await znp.request(
            Subsystem.ZDO, "startupFromApp", {"startdelay": 100}, None, [0, 1]
        )
        await started.wait()
        LOGGER.info("ZNP started as coordinator")
    else:
        LOGGER.info("ZNP is already started as coordinator")
''', '''    coordinator = Common.devStates["ZB_COORD"]
    if result.payload["devicestate"] == coordinator:
        LOGGER.info("ZNP is already started as coordinator")
        return

    LOGGER.debug("Start ZNP as coordinator...")
    started = znp.wait_for(
        CommandType.AREQ,
        Subsystem.ZDO,
        "stateChangeInd",
        payload={"state": coordinator},
        timeout=60000,
    )
    await znp.request(
        Subsystem.ZDO, "startupFromApp", {"startdelay": 100}, expected_status=[0, 1]
    )
    await started.wait()
    LOGGER.info("ZNP started as coordinator")
'''))
ref("znp-endpoint-class", (S, '''        for key, value in kwargs.items():
            setattr(self, key, value)
''', '''        self.__dict__.update(kwargs)
'''))

ref("nv-struct", (N, '''            "value": bytes([panID & 0xFF, (panID >> 8) & 0xFF]),
''', '''            "value": struct.pack("<H", panID),
'''), (N, "from zigpy.types import", "import struct\n\nfrom zigpy.types import"))
ref("nv-to-bytes", (N, '''            "value": bytes([panID & 0xFF, (panID >> 8) & 0xFF]),
''', '''            "value": int(panID).to_bytes(2, "little"),
'''))
ref("nv-link-key", (N, '''            "value": bytes(
                [
                    0xFF,
                    0xFF,
                    0xFF,
                    0xFF,
                    0xFF,
                    0xFF,
                    0xFF,
                    0xFF,
                    0x5A,
                    0x69,
                    0x67,
                    0x42,
                    0x65,
                    0x65,
                    0x41,
                    0x6C,
                    0x6C,
                    0x69,
                    0x61,
                    0x6E,
                    0x63,
                    0x65,
                    0x30,
                    0x39,
                    0x00,
                    0x00,
                    0x00,
                    0x00,
                    0x00,
                    0x00,
                    0x00,
                    0x00,
                ]
            ),
''', '''            "value": b"\\xff" * 8 + b"ZigBeeAlliance09" + bytes(8),
'''))
ref("nv-len", (N, '''            "id": NvItemsIds.PRECFGKEYS_ENABLE,
            "len": 0x01,
            "offset": 0x00,
            "value": b"\\x01" if distribute else b"\\x00",
''', '''            "id": NvItemsIds.PRECFGKEYS_ENABLE,
            "len": 1,
            "offset": 0,
            "value": bytes([int(bool(distribute))]),
'''))
ref("types-options-if", (T, '''        self.networkKey = config[zigpy.config.CONF_NWK_KEY] or (
            zigpy.config.cv_key([1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 13])
        )
''', '''        self.networkKey = config[zigpy.config.CONF_NWK_KEY]
        if self.networkKey is None:
            self.networkKey = zigpy.config.cv_key(
                [1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 13]
            )
'''))
ref("types-options-get", (T, '''        self.panID = config[zigpy.config.CONF_NWK_PAN_ID]
''', '''        self.panID = config.get(zigpy.config.CONF_NWK_PAN_ID)
'''), (T, '''            config[zigpy.config.CONF_NWK_CHANNELS] or t.Channels.from_channel_list([11])
        )
''', '''            config.get(zigpy.config.CONF_NWK_CHANNELS)
            or t.Channels.from_channel_list([11])
        )
'''))
ref("types-is-buffer-range", (T, '''        return (
            type == ParameterType.BUFFER
            or type == ParameterType.BUFFER8
            or type == ParameterType.BUFFER16
            or type == ParameterType.BUFFER18
            or type == ParameterType.BUFFER32
            or type == ParameterType.BUFFER42
            or type == ParameterType.BUFFER100
        )
''', '''        return ParameterType.BUFFER <= type <= ParameterType.BUFFER100
'''))
