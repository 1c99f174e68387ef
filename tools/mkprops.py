"""Writes /verif/properties.jsonl (kept as code so that it is easy to review)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe or [], "hook_needed": None}})
Z = "zigpy_cc/"
p("C01", "Every outgoing frame is a well-formed MT frame",
  "Every frame handed to the serial port is exactly start byte 0xFE, the payload length, one byte carrying the command type in its top three bits and the subsystem in its low five, the command number, the payload bytes unchanged, and the XOR of everything between start byte and checksum. A frame is written in one piece, exactly once. A payload that does not fit the one-byte length is refused with an error and nothing is written.",
  ["inputs"], "every command type, subsystem, command number 0..255 and payload of any length and content",
  "test_uart writes one version request and checks one checksum; no test varies payload length, type, subsystem or looks at an over-long payload.",
  [Z+"uart.py"], [("UnpiFrame.to_buffer", Z+"uart.py"), ("UnpiFrame.calculate_checksum", Z+"uart.py"), ("Gateway.send", Z+"uart.py")],
  ["bytes passed to the serial transport's write"])
p("C02", "The inbound byte stream is decoded to exactly its frames",
  "Whatever way the serial line cuts the inbound stream into chunks, every well-formed frame in it, of any payload length including zero, is handed up exactly once, in order, with its type, subsystem, command number and payload intact, as soon as its last byte has arrived. Bytes between frames that are not a start byte are skipped and produce nothing.",
  ["inputs", "histories"], "every stream of well-formed frames and non-start noise bytes, cut into chunks in every way",
  "test_uart feeds five fixed streams, all with the same 14-byte frame, in one or two cuts; zero-length payloads and other cuts never occur.",
  [Z+"uart.py"], [("Parser.write", Z+"uart.py"), ("UnpiFrame.from_buffer", Z+"uart.py"), ("Gateway.data_received", Z+"uart.py")],
  ["frames passed to the API layer's data_received"], [("parser buffer", "bytes of the frame being assembled", Z+"uart.py Parser")])
p("C03", "A bad frame costs only itself",
  "A frame whose checksum is wrong is never handed up. A frame that is corrupt, has an unknown subsystem or command, is too short for its command, or makes the layers above fail, never prevents a well-formed frame that comes after it, in the same chunk or a later one, from being handed up and processed; no exception escapes to the serial transport.",
  ["inputs", "fault_sequences"], "every content of the bad frame, every failure of the layers above, every position in every chunk",
  "test_data_received_wrong_checksum feeds one frame with a wrong checksum and nothing after it; unknown subsystems, unknown commands and failing handlers are never exercised through the serial layer.",
  [Z+"uart.py", Z+"api.py"], [("Gateway.data_received", Z+"uart.py"), ("UnpiFrame.from_buffer checksum test", Z+"uart.py"), ("API.data_received", Z+"api.py")],
  ["frames passed up after the bad one", "exceptions out of the protocol callback"])
p("C04", "Every command survives encoding and decoding unchanged",
  "For every command in the command table whose parameter types are supported, encoding a request with in-range values and decoding the resulting frame gives back the same type, subsystem, command and the same value for every parameter; the same holds for responses and indications. Counts and length fields are taken to agree with the data they describe.",
  ["inputs"], "every command of the table, in both directions, and all in-range parameter values, lists and buffers of any length",
  "test_types and test_buffalo decode a dozen recorded frames; most of the table's commands and all boundary values are never encoded or decoded.",
  [Z+"zpi_object.py", Z+"buffalo.py", Z+"definition.py"],
  [("ZpiObject.to_unpi_frame / from_command / from_unpi_frame / read_parameters", Z+"zpi_object.py"), ("Buffalo.write_parameter / read_parameter", Z+"buffalo.py")],
  ["payload and frame bytes"])
p("C05", "Decoding never reads beyond the payload",
  "Decoding a received payload takes the parameters from consecutive bytes, starting at the first, each byte belonging to exactly one parameter. When the payload ends before the last parameter does, decoding is refused with an error instead of giving back a truncated or invented value.",
  ["inputs"], "every command, every payload and every point at which the payload is cut off",
  "No test cuts a payload short; the recorded frames are all complete.",
  [Z+"buffalo.py", Z+"zpi_object.py"], [("Buffalo.read bounds check", Z+"buffalo.py"), ("ZpiObject.read_parameters", Z+"zpi_object.py")],
  ["result or exception of decoding a payload"], [("position", "next byte to read", Z+"buffalo.py Buffalo")])
p("C06", "Numbers are fixed-width little-endian and never wrap",
  "Each integer parameter is sent in exactly the width its type declares (1, 2, 4 or 8 bytes), least significant byte first, and is read back that way; 8-byte addresses are sent byte for byte in the order they are held. A value outside the range of its type is refused with an error instead of being truncated or wrapped.",
  ["inputs"], "every integer value, in and out of range, for every integer and address parameter type, alone and as a list element",
  "test_buffalo writes and reads a few addresses; no test writes a boundary or out-of-range value.",
  [Z+"buffalo.py"], [("Buffalo.write / write_parameter", Z+"buffalo.py"), ("Buffalo.read_int / read_ieee_addr / read_parameter", Z+"buffalo.py")],
  ["bytes appended to the outgoing payload, values returned, exceptions"])
p("C07", "The command table is unambiguous and matches the MT interface",
  "Within a subsystem, no two commands share a number and no two share a name, and a frame is interpreted with the response layout of its command exactly when it is a synchronous response, otherwise with the request layout. A frame with a number no command of its subsystem has is refused. The number, kind and wire layout of each command are those of the Z-Stack MT interface.",
  ["inputs", "programs"], "every command entry of the table and every frame type, subsystem and command number",
  "Tests touch about fifteen of the 200 entries; a wrong number, width or a duplicate elsewhere goes unnoticed.",
  [Z+"definition.py", Z+"zpi_object.py"], [("Definition", Z+"definition.py"), ("ZpiObject.from_command / from_unpi_frame lookup", Z+"zpi_object.py")],
  ["command, parameters and payload of decoded objects"])
p("C08", "A pending request is completed only by its own response",
  "A message from the stick completes a pending wait only if message type, subsystem, command and every correlating field are equal to what that wait asked for, and the wait then gets exactly that message. Pending waits that do not match stay pending and unchanged, and a message that matches none completes none.",
  ["inputs", "histories"], "every message and every set of pending waits, of any number",
  "test_api checks single recorded exchanges with one pending wait; several waits, near-miss messages and differing correlation fields are not covered.",
  [Z+"api.py"], [("Waiter.match", Z+"api.py"), ("API.data_received", Z+"api.py"), ("Waiter.set_result", Z+"api.py")],
  ["future of each pending wait"], [("pending waits", "map from id to wait, in creation order", Z+"api.py API")])
p("C09", "At most one synchronous request is in flight",
  "From the moment a synchronous request is written to the port until its response has arrived or it has failed, no other request is written. The wait for the response is registered before the request is written, and the way is free for the next request on every outcome: response, error status, timeout, cancellation, failure to encode or to write. An asynchronous request is over once it is written; a reset is in flight until the stick reports it.",
  ["schedules", "fault_sequences"], "every interleaving of concurrent requests and every way one can end",
  "Tests issue one request at a time against a mocked port and never time out or cancel one.",
  [Z+"api.py"], [("API.request_raw lock", Z+"api.py"), ("API._request_raw", Z+"api.py"), ("API.wait_for", Z+"api.py")],
  ["order of port writes, waits and lock releases"], [("request lock", "held while a request is in flight", Z+"api.py API")])
p("C10", "An unexpected status is always raised to the caller",
  "When the response to a synchronous request carries a status outside the expected set (only success unless the caller says otherwise), the caller gets a command error carrying that status, and a wait registered for the follow-up reply is released with that response. Otherwise the caller gets the response itself. This holds whether or not the follow-up wait still exists.",
  ["inputs", "histories"], "every status value, every expected set, every response with or without a status, follow-up wait present, answered, expired or absent",
  "No test of the API layer produces a failing status or passes an expected set.",
  [Z+"api.py", Z+"exception.py"], [("API._request_raw status test", Z+"api.py"), ("CommandError", Z+"exception.py")],
  ["result or exception of the request", "future of the follow-up wait"])
p("C11", "Waits are unique, end once, and are always removed",
  "Every wait gets an identity that no other wait of the connection ever has, and is pending from its creation until the first message that matches it or until shortly after its time is up, whichever is first, and never after. It is completed at most once, a late or repeated completion is harmless, and the wait of a synchronous request, of a reset and of anything else expires after the time laid down for it.",
  ["histories", "schedules"], "every sequence of creations, matching messages, cancellations and expiries",
  "Timers never fire in the tests and no wait is completed twice or cancelled.",
  [Z+"api.py", Z+"types.py"], [("API.wait_for and its timer callback", Z+"api.py"), ("Waiter.wait / set_result", Z+"api.py"), ("Timeouts", Z+"types.py")],
  ["set of pending waits after each step", "state of the futures"], [("pending waits", "map from id to wait", Z+"api.py API"), ("next id", "counter", Z+"api.py API")])
p("C12", "A device management reply gets its own request's number",
  "A device management reply is given the transaction number, any of 0 to 255, of the oldest pending request for that reply from that device, and uses up exactly that one request, leaving younger ones pending. With no such request pending the reply carries no number.",
  ["inputs", "histories"], "every transaction number and every set and order of pending requests to any devices",
  "test_node_desc has a single pending request with one number; number 0 and several pending requests never occur.",
  [Z+"api.py"], [("API.create_response_waiter", Z+"api.py"), ("API.data_received", Z+"api.py")],
  ["sequence of the object handed to the application"])
p("C13", "Outgoing messages carry exactly what the caller asked for",
  "A message sent on behalf of the application becomes a data request with exactly the given destination, endpoints, cluster, transaction number, radius, data and data length, addressed directly for unicasts and with the given address mode for groups and broadcasts (a group message goes to endpoint 255, from endpoint 1 if no source endpoint is given, with radius 30 if no number of hops is given); messages of the device object profile (profile 0) become the device management command of that number, carrying the given parameters and destination. No other profile is ever turned into a device management command.",
  ["inputs"], "every destination, profile, cluster, endpoints, number, radius, address mode and data of any length",
  "test_types and test_application build four fixed messages, all with the home automation profile or profile 0.",
  [Z+"zpi_object.py", Z+"zigbee/application.py"], [("ZpiObject.from_cluster", Z+"zpi_object.py"), ("ControllerApplication.request / mrequest / broadcast", Z+"zigbee/application.py")],
  ["command and payload handed to the API layer"])
p("C14", "Sending reports its true outcome and frees its slot",
  "Sending a unicast, group or broadcast message gives status 0 exactly when the stick accepted the message, and gives the stick's status and a text when it refused it. Each message is sent exactly once, within the stick's limit of concurrent messages, and the place it takes in that limit is given back whatever happens.",
  ["inputs", "fault_sequences", "schedules"], "every outcome of the request: accepted, any refusal status, timeout, cancellation, and every number of concurrent senders",
  "Tests only send with a mocked API that always succeeds.",
  [Z+"zigbee/application.py"], [("ControllerApplication.request / mrequest / broadcast / permit_ncp", Z+"zigbee/application.py")],
  ["return value", "requests handed to the API layer", "concurrency slots"])
p("C15", "Incoming application messages are dispatched exactly once",
  "Every incoming application message from a known device, short or extended form, is handed to the device layer exactly once, with that device, its cluster, endpoints and data unchanged, and the device's link quality is recorded. Messages from unknown devices, messages that are not indications and message kinds the application does not handle are handed on never, and none of them raises an error.",
  ["inputs"], "every indication in the command table with all parameter values, sender known or unknown",
  "test_types decodes two recorded messages and test_application dispatches one join and a few replies; the extended form and unknown senders are not covered.",
  [Z+"zigbee/application.py"], [("ControllerApplication.handle_znp", Z+"zigbee/application.py")],
  ["calls of handle_message and radio_details"])
p("C16", "Device management replies are passed on faithfully",
  "A device management reply of a kind the application supports (node descriptor, active endpoints, simple descriptor, bind, link quality table, permit joining) that answers a pending request is handed to the device layer once, as the reply's cluster, on endpoint 0 both sides, with data consisting of the request's transaction number followed by the reply's bytes as received after the sender address. A reply that answers no pending request is not handed on.",
  ["inputs"], "every supported reply with all its parameter values and every transaction number 0..255",
  "Tests cover two reply kinds with one recorded frame each.",
  [Z+"zigbee/application.py", Z+"zpi_object.py", Z+"buffalo.py"], [("REQUESTS table, ControllerApplication.handle_znp", Z+"zigbee/application.py"), ("ZpiObject.to_unpi_frame", Z+"zpi_object.py")],
  ["calls of handle_message"])
p("C17", "A device announcing itself joins exactly once",
  "Each device announcement leads to exactly one join notification with the announced short and long address, and no other message ever causes one. If the device is known the announcement itself is handed on too, with transaction number 0.",
  ["inputs"], "every announcement (addresses, capabilities) and every other indication",
  "test_join uses one recorded announcement.",
  [Z+"zigbee/application.py"], [("ControllerApplication.handle_znp", Z+"zigbee/application.py")],
  ["calls of handle_join and handle_message"])
p("C18", "Stick memory items encode the configuration exactly",
  "Each configuration item written to or compared with the stick's memory has the number the stick firmware assigns to it, starts at offset 0 and holds exactly the configured value in the stick's byte order: PAN ID as two bytes low first, channels as a four-byte mask, extended PAN ID as 8 bytes, network key as 16 bytes, flags as one byte. The declared length is always the length of the value.",
  ["inputs", "configurations"], "every PAN ID, extended PAN ID, channel mask, network key, flag value and firmware version",
  "No test constructs any of these items.",
  [Z+"zigbee/nv_items.py", Z+"zigbee/common.py"], [("Items", Z+"zigbee/nv_items.py"), ("NvItemsIds", Z+"zigbee/common.py")],
  ["items handed to the API layer"])
p("C19", "A stick is left alone only if it holds the configured network",
  "At startup the stick is left uninitialised exactly when everything it stores - configured marker, channels, key distribution flag, network key, PAN ID and extended PAN ID - equals the configuration. The only exception: on the newer firmwares (3.0.x and 3.x.0) the PAN ID and extended PAN ID need not match when the stick's PAN ID was never set (0xFFFF).",
  ["inputs", "configurations"], "every content of the stick's memory, every configuration and firmware version",
  "No test covers the start-up decision.",
  [Z+"zigbee/start_znp.py"], [("needsToBeInitialised, validate_item", Z+"zigbee/start_znp.py")],
  ["decision taken, given the stick's answers"])
p("C20", "Initialisation writes every setting, and the marker last",
  "Initialising the stick resets it, clears its state and writes the coordinator role, key distribution flag, direct callbacks, channels, PAN ID, extended PAN ID and network key (and, depending on firmware, link key or primary and secondary channels and commissioning) with the configured values. The marker that says the stick is configured is written only after all of this has succeeded, and a marker left by an earlier configuration is taken back first, so that an initialisation interrupted at any point is redone at the next start.",
  ["configurations", "crash_points", "fault_sequences"], "every configuration, every firmware version, and failure or power loss at every step",
  "No test covers initialisation.",
  [Z+"zigbee/start_znp.py"], [("initialise", Z+"zigbee/start_znp.py")],
  ["sequence of requests to the stick"])
p("C21", "Start-up ends with a running, fully registered coordinator",
  "Start-up succeeds only when the stick is in the coordinator state, having been told to start if it was not. Every endpoint of the table the stick does not already have is registered exactly once with its profile, and no other one; the Green Power endpoint is added to its group exactly when it is not in it. It reports reset when the stick was initialised (restored if that was a Z-Stack 1.2 stick not marked as configured) and resumed when nothing was needed.",
  ["inputs", "histories", "fault_sequences"], "every device state, every set of active endpoints, every group membership, every firmware version and any failing step",
  "No test covers start-up.",
  [Z+"zigbee/start_znp.py"], [("boot, registerEndpoints, addToGroup, start_znp", Z+"zigbee/start_znp.py")],
  ["sequence of requests to the stick and the status returned"])
p("C22", "The network is formed with the configured parameters",
  "The network key, PAN ID, extended PAN ID and channels used are the configured ones, whatever their value, and a default is used only for a parameter that is not configured (an empty channel selection counts as not configured).",
  ["configurations"], "every combination of configured and unconfigured parameters and all their values",
  "No test builds network options with configured values.",
  [Z+"types.py", Z+"zigbee/application.py"], [("NetworkOptions", Z+"types.py"), ("ControllerApplication.form_network", Z+"zigbee/application.py")],
  ["options handed to start-up"])
p("C23", "The serial port is opened as configured",
  "Whatever way a connection is made (connecting, probing, starting and restarting the application), the port is opened with the path, baud rate and flow control (hardware, software or none, never both) of the user's configuration - 115200 baud and no flow control where it says nothing - and on automatic selection exactly when there is exactly one matching adapter, with that adapter's port; otherwise opening fails with a serial error and no port is opened. Opening completes only once the link is up, after the byte that stops the boot loader has been sent.",
  ["configurations", "inputs"], "every path, baud rate, flow control setting and set of attached adapters",
  "test_uart covers the three flow control settings with a fixed path; automatic selection is not covered.",
  [Z+"uart.py", Z+"config.py", Z+"api.py", Z+"zigbee/application.py"], [("connect, detect_port", Z+"uart.py"), ("SCHEMA_DEVICE, CONFIG_SCHEMA", Z+"config.py"), ("API.new, API.connect, API.probe", Z+"api.py"), ("ControllerApplication.startup", Z+"zigbee/application.py")],
  ["arguments of the serial connection, bytes written, exceptions"])
p("C24", "Probing answers truthfully and always closes the port",
  "Probing a port says yes exactly when the port could be opened and the stick answered a version request in time. It says no when opening fails, the answer is missing or the stick reports an error. In every case, including errors and cancellation, a port it opened is closed again.",
  ["fault_sequences", "inputs"], "every failure at every step of the probe",
  "test_probe covers success and two failures of the whole connection step; failures after the port was opened are not covered.",
  [Z+"api.py", Z+"uart.py"], [("API.probe, API._probe, API.close", Z+"api.py")],
  ["return value and port state"])
p("C25", "An unexpected loss of the port leads to reconnection",
  "When the port goes away without having been closed on purpose, the application tries to start again, closing the old connection first, until an attempt succeeds, and then stops trying. Closing the connection on purpose closes the port and never triggers a reconnection.",
  ["histories", "fault_sequences"], "every number of failing attempts, every kind of failure, every order of open, close and loss",
  "test_close closes a mocked port; connection loss and reconnection are not covered.",
  [Z+"uart.py", Z+"api.py", Z+"zigbee/application.py"], [("Gateway.connection_lost / close", Z+"uart.py"), ("API.connection_lost / close", Z+"api.py"), ("ControllerApplication.connection_lost / reconnect / shutdown", Z+"zigbee/application.py")],
  ["calls of close and startup"], [("open flag", "port open and not closed on purpose", Z+"uart.py Gateway")])
p("C26", "Start-up adapts to the stick and knows its own address",
  "After start-up the application knows the stick's own short and long address and lists the stick as coordinator under it, allows 16 messages at once on Z-Stack 3.x.0 and 2 on the others, and forms the network exactly when asked to. A stick that does not answer the first ping with success makes start-up fail.",
  ["inputs", "configurations", "fault_sequences"], "every version and device information answer, form flag on or off, failure of each step",
  "No test runs start-up.",
  [Z+"zigbee/application.py"], [("ControllerApplication.startup", Z+"zigbee/application.py"), ("API.version", Z+"api.py")],
  ["state of the application after start-up"])
p("C27", "Permitting joins tells all routers, for the time asked for",
  "Permitting devices to join for 0 to 254 seconds sends one permit-join request to all routers and the coordinator with exactly that duration; any other duration is refused and nothing is sent. The stick's LED follows joining being open or closed, and is never touched on firmwares without LED control (Z-Stack 3.x.0).",
  ["inputs", "configurations"], "every duration, every permit-join indication and every firmware version",
  "No test permits joining or sets the LED.",
  [Z+"zigbee/application.py"], [("ControllerApplication.permit_ncp / set_led / handle_znp", Z+"zigbee/application.py")],
  ["requests handed to the API layer"])
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80
        f.write(json.dumps(x) + "\n")
