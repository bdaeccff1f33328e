"""The properties, one call per property.  tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      technique=technique, note=note, na=na, observe=observe or [], state=state or []))


ABS = "abstract interpretation of the type-checked AST: path-sensitive value terms plus linear facts, compared with a table"
TBL = ("Every path of the named functions is summarised from the current source into input->output terms; each row of the "
       "table is discharged for all inputs, or reported undecided in the evidence (never guessed).")

# ---------------------------------------------------------------- Modbus codec
prop("M01", "Modbus request PDUs encode function, address, count and data as specified",
     "For every supported function code, starting address, quantity and data, the request PDU is the function code followed by "
     "big-endian 16-bit address and count fields and, for write functions, exactly the caller's data with a correct byte count. "
     "A request whose data does not fit the function or quantity is rejected with a malformed-request error instead of being sent.",
     ["inputs"], "all function codes, addresses, counts and data vectors",
     "the tests encode a few fixed requests; the field layout must hold for every 16-bit address and count and every data size",
     ["src/modbus_base.cpp", "src/modbus_base.h"],
     [{"name": "request builder", "where": "src/modbus_base.cpp Modbus::MakePDU"}], ABS, TBL, observe=["Modbus::MakePDU"])
prop("M02", "Modbus request framing wraps the PDU without altering it",
     "An RTU request is the slave id, the unmodified PDU and the little-endian CRC-16 of both; a TCP request is the MBAP header with "
     "the transaction id, zero protocol id, the length of unit id plus PDU, and the unit id, followed by the unmodified PDU.",
     ["inputs"], "all slave ids, PDUs and transaction ids",
     "the tests compare a few complete frames; every byte of the frame must be right for every PDU length and id",
     ["src/modbus_base.cpp", "src/crc16.cpp"],
     [{"name": "framing", "where": "src/modbus_base.cpp TModbusRTUTraits / TModbusTCPTraits MakeRequest, Transaction"}], ABS, TBL,
     observe=["TPort::WriteBytes"])
prop("M03", "A Modbus RTU reply is accepted only if complete, checksummed and addressed right",
     "The payload of an RTU reply is handed on only when the frame carries a correct CRC, comes from the addressed slave (unless the "
     "caller accepts any address) and has a valid length. Otherwise a malformed-response or unexpected-response error is raised and no "
     "byte of the frame is used; the sender reported with the payload is the one that answered. With the frame time-out forced, the line is read "
     "once more before the reply is delivered, and silence there is no error. No read goes beyond its buffer.",
     ["inputs", "fault_sequences"], "all byte sequences the line can deliver, including truncated and corrupted frames",
     "the tests replay a handful of recorded frames; corruption can hit any byte and any length",
     ["src/modbus_base.cpp"], [{"name": "RTU transaction", "where": "src/modbus_base.cpp TModbusRTUTraits::ReadFrame, Transaction"}],
     ABS, TBL, observe=["TModbusRTUTraits::Transaction"])
prop("M04", "A Modbus TCP reply is accepted only for its own transaction, unit and length",
     "A TCP reply is delivered only when the whole header and exactly the announced number of bytes arrived, its transaction id equals that of "
     "the request and its unit id is the addressed one (unless any is accepted). Frames of other transactions are skipped and the wait goes on; "
     "truncated frames and zero lengths end in a malformed-response error, a foreign unit id in an unexpected-response error. "
     "Whatever length a frame announces, no read goes beyond its buffer.",
     ["inputs", "fault_sequences"], "all byte sequences a gateway can deliver, including stale and oversized frames",
     "the tests replay a few recorded frames", ["src/modbus_base.cpp"],
     [{"name": "TCP transaction", "where": "src/modbus_base.cpp TModbusTCPTraits::ReadFrame, Transaction"}], ABS, TBL,
     observe=["TModbusTCPTraits::Transaction"])
prop("M05", "Modbus replies yield data only for the function asked; exceptions always raise",
     "Data extracted from a reply PDU is exactly the payload that function defines, and only when the reply's function code matches the "
     "request. A reply with the exception bit always raises an error carrying the device's exception code, and too short or inconsistent "
     "replies raise a malformed-response error.",
     ["inputs", "fault_sequences"], "all function codes and all reply byte sequences",
     "tests cover a few replies per function; exception codes and lengths form a large space", ["src/modbus_base.cpp"],
     [{"name": "payload extraction", "where": "src/modbus_base.cpp Modbus::ExtractResponseData"}], ABS, TBL,
     observe=["Modbus::ExtractResponseData"])
prop("M06", "Predicted Modbus reply sizes and frame ends agree with the protocol",
     "For every function and quantity the predicted reply size equals the size of the reply the protocol defines, and an incoming RTU frame is "
     "treated as finished exactly when as many bytes arrived as the expected reply, or an exception reply, has.",
     ["inputs"], "all functions, quantities and received prefixes",
     "tests use fixed sizes; a wrong prediction only costs timeouts or truncation for particular quantities", ["src/modbus_base.cpp"],
     [{"name": "size prediction", "where": "src/modbus_base.cpp Modbus::CalcResponsePDUSize, IsException, ExpectNBytes predicate"}], ABS, TBL)
prop("M07", "Every Modbus TCP request gets the next transaction id of its port",
     "Each request sent over a port carries a transaction id one greater (modulo 65536) than the previous one on that port, and ports do not "
     "share counters; the id matched against replies is the id sent. Resetting a port forgets exactly that port's counter.",
     ["histories"], "all sequences of requests over all ports",
     "tests send a handful of requests over one port", ["src/modbus_base.cpp"],
     [{"name": "id allocation", "where": "src/modbus_base.cpp TModbusTCPTraits::GetTransactionId"}], ABS, TBL + " Not covered: that the mutex is held while the ids are used.")
prop("M08", "A Modbus exception is reported with the meaning of its code",
     "The error raised for an exception reply names the meaning the Modbus specification gives to its code; any other code is reported as invalid "
     "with its number.",
     ["inputs"], "all 256 codes", "tests raise one or two codes; a shifted table shows only for particular codes",
     ["src/modbus_base.cpp"], [{"name": "exception texts", "where": "src/modbus_base.cpp TModbusExceptionError"}], ABS, TBL)
prop("C01", "Checksums equal the CRC-16 the protocols define",
     "For every buffer and length the computed checksum equals the Modbus CRC-16 (reflected polynomial 0xA001, initial value 0xFFFF) with its "
     "two bytes in the order the callers transmit.",
     ["inputs"], "all byte sequences of all lengths",
     "a test checks one buffer; a single wrong table entry shows only for the data that selects it", ["src/crc16.cpp"],
     [{"name": "table driven CRC", "where": "src/crc16.cpp CRC16::CalculateCRC16"}],
     "abstract interpretation over GF(2)-linear maps of the loop body and constant tables", TBL)
# ---------------------------------------------------------------- byte and digit codecs
prop("B01", "BCD conversions are exact positional conversions",
     "Converting a number to BCD yields its decimal digits, two per byte with the most significant first, in exactly the requested width; "
     "converting packed BCD back yields the number whose decimal digits are the nibbles. Packing bytes reads them as one big-endian number.",
     ["inputs"], "all 64-bit values and every field width the devices use (1 to 4 bytes)",
     "tests sample a few values; meters deliver any digit string", ["src/bcd_utils.cpp", "src/bcd_utils.h"],
     [{"name": "BCD", "where": "src/bcd_utils.cpp IntToBCDArray, IntToPackedBCD, PackedBCD2Int, PackBytes"}], ABS, TBL)
prop("B02", "Bit masks and 16-bit stores equal their definition for every argument",
     "The least-significant-bits mask of n bits has exactly the n lowest bits set for n up to 63 and all 64 for larger n, and storing a 16-bit "
     "value writes its high byte first and its low byte second.",
     ["inputs"], "all bit counts and values", "tests sample a few bit counts; the shift is undefined at the edge", ["src/bin_utils.cpp"],
     [{"name": "mask, store", "where": "src/bin_utils.cpp GetLSBMask, WriteAs2Bytes"}], ABS, TBL)
prop("B03", "Little- and big-endian readers and appenders are exact for every width",
     "Reading an unsigned number from bytes combines them in the named byte order, for every number of bytes up to the type's size, and appending "
     "a number appends exactly the requested number of its low bytes in the named order after what was already there.",
     ["inputs"], "all values, byte strings, widths and the 16, 32 and 64 bit types", "tests use one value per function", ["src/bin_utils.h"],
     [{"name": "endian templates", "where": "src/bin_utils.h Get, GetBigEndian, GetFrom, GetFromBigEndian, Append, AppendBigEndian"}], ABS, TBL)
prop("B04", "Byte stuffing replaces exactly the bytes with a rule; unstuffing undoes it",
     "Stuffing replaces each byte that has a rule by its escape sequence and keeps all others in order; unstuffing replaces each escape sequence, "
     "scanned left to right and wherever it stands including at the very end, by the byte it stands for and keeps all other bytes.",
     ["inputs"], "all byte strings (decided for every string of up to 4 bytes over three rule sets; the loop carries no other state)",
     "tests decode one frame; an escape can stand at any position", ["src/bin_utils.cpp", "src/bin_utils.h"],
     [{"name": "byte stuffing", "where": "src/bin_utils.cpp DecodeByteStuffing, src/bin_utils.h ApplyByteStuffing"}], ABS, TBL)
# ---------------------------------------------------------------- condition expressions
prop("E01", "A condition is split into exactly the tokens it spells, or rejected",
     "A channel or setting condition is split into brackets, the operators == != < > <= >= || &&, decimal numbers with an optional minus and "
     "identifiers (a letter, then letters, digits and underscores), longest match first, each with its text and position, closed by an end "
     "token. Any other character, a single = ! | & and a minus without a digit are rejected with the symbol and its 1-based position, or with "
     "'unexpected end of line' at the end.",
     ["inputs"], "all strings (decided per lexical class for every string of up to three characters and selected longer ones)",
     "tests tokenize a dozen conditions", ["src/expression_evaluator.cpp", "src/expression_evaluator.h"],
     [{"name": "lexer", "where": "src/expression_evaluator.cpp TLexer::GetTokens"}], ABS, TBL)
prop("E02", "A condition parses to the tree its operator precedence defines, or is rejected",
     "Relational operators bind tighter than equality, equality tighter than &&, && tighter than ||; operators of equal priority group to the "
     "left and brackets override. isDefined(name) is the only function. Unbalanced brackets, missing operands or operators and unknown "
     "functions are rejected with the position of the offending token.",
     ["inputs"], "all token sequences (decided for every sequence of the grammar's token classes up to a bounded length)",
     "tests parse a few conditions; precedence errors show only for particular operator combinations",
     ["src/expression_evaluator.cpp"],
     [{"name": "parser", "where": "src/expression_evaluator.cpp TParser::Parse, TreeByPriority"}], ABS, TBL)
prop("E03", "A condition's value is the documented operation on its operands' values",
     "Numbers are decimal integers, an identifier is the value of that parameter, comparisons compare signed integers, && and || test for "
     "non-zero. A comparison or logical operation with an undefined operand is false, except != which is true; isDefined(p) is true exactly "
     "when p has a value; a condition holds exactly when its value is defined and non-zero.",
     ["inputs"], "all trees and all parameter assignments including undefined ones",
     "tests evaluate a few conditions with a few parameters", ["src/expression_evaluator.cpp"],
     [{"name": "evaluator", "where": "src/expression_evaluator.cpp Expressions::Eval"}], ABS, TBL)
prop("E04", "A condition's dependencies are exactly the parameters it mentions",
     "The dependencies reported for a condition are the names of all parameters that occur in it, as operands or as the argument of isDefined, each "
     "exactly once; an empty condition has none. They decide which parameters have to be read before a setting or channel can be enabled.",
     ["inputs"], "all expression trees (decided for every kind of node in every position, repeated names and deep nesting)",
     "tests list the dependencies of a few conditions", ["src/expression_evaluator.cpp"],
     [{"name": "dependencies", "where": "src/expression_evaluator.cpp Expressions::GetDependencies"}], ABS, TBL)
# ---------------------------------------------------------------- poll plan
prop("Q01", "The poll queue hands out the entry due first, and holds exactly its entries",
     "An entry of the poll queue takes precedence over another exactly when it is due earlier, or is due at the same time and the entry comparison "
     "says so. Adding an entry with a deadline puts that pair in the queue; Contains tells whether an entry is held; Remove takes away a held entry "
     "and leaves the rest in due order; the queue's deadline is that of its first entry, the farthest future when it is empty; an entry is ready "
     "exactly when its deadline is not after the given time.",
     ["inputs", "histories"], "all queue contents, deadlines and times",
     "tests add a few entries; after a removal the heap order breaks only for particular contents",
     ["src/poll_plan.h"], [{"name": "priority queue", "where": "src/poll_plan.h TPriorityQueue, TPriorityQueueSchedule"}], ABS, TBL)
prop("Q02", "The scheduler offers due entries in the documented order, policy and limit",
     "When high-priority entries are due they are offered in due order until one is refused, the first with policy Force, the others "
     "AccordingToPollLimitTime, with no time limit. With selection policy All, due low-priority entries come first instead when there are no "
     "high-priority entries at all or the accumulated high-priority time exceeds the allowed lag; the first of them is then forced. Otherwise low-priority entries are offered only with policy All and when no high-priority entry is "
     "due, with the time until the next high-priority deadline (rounded up to ms, the overdue lag if none is left, unlimited without high-priority "
     "entries) as limit. Accepted entries leave the queue, the refused one stays. The accumulated time stays within twice the lag either way.",
     ["inputs", "histories"], "all queue contents up to the bound, deadlines, times, lags and accumulated times",
     "tests sample a few schedules; starvation shows only for particular load histories",
     ["src/poll_plan.h"], [{"name": "scheduler", "where": "src/poll_plan.h TScheduler, TTotalTimeBalancer"}], ABS,
     TBL + " Queues of up to 2 (thorough 3) entries per priority; deadlines, times, lag and load are symbolic.")
prop("Q03", "The rate limiter reports overload exactly above the limit within a second",
     "With a limit set, polls are counted per second, a second starting at the whole second of its first poll; the limiter is over the limit "
     "exactly while more polls than the limit were counted and at most one second has passed since that start. With limit 0 it is never over.",
     ["histories"], "all limits and all sequences of poll times (decided for every history of up to 3, thorough 4, polls)",
     "tests do not exercise the limiter at the boundaries of its window",
     ["src/poll_plan.h"], [{"name": "rate limiter", "where": "src/poll_plan.h TRateLimiter"}], ABS, TBL)
# ---------------------------------------------------------------- text and time helpers
prop("U01", "Version strings are ordered part by part, -rc before and +wb after",
     "Versions compare part by part as numbers, missing parts and parts that are not numbers counting as 0 and numbers too big for an int as a very big one; N-rcM counts as the two parts N and "
     "M-128, N+wbM as N and M+128, so that a release candidate precedes and a +wb build follows its release; an empty version precedes any other. "
     "The result is negative, zero or positive accordingly.",
     ["inputs"], "all pairs of version strings with parts of up to nine digits (decided for the listed templates with symbolic digits and characters)",
     "tests compare a few versions; malformed and long parts, equal prefixes and suffix combinations are unlimited",
     ["src/common_utils.cpp", "src/common_utils.h"], [{"name": "version comparison", "where": "src/common_utils.cpp CompareVersionStrings, ParseVersionString"}], ABS, TBL)
prop("U02", "MQTT topic strings: exactly the forbidden characters are replaced",
     "A string is a valid topic string exactly when it has none of the characters ' \" / + $ #. Conversion replaces ' \" / by |, + by _plus_, $ and "
     "# by _, keeps every other character and the order, and so always gives a valid string.",
     ["inputs"], "all strings (decided for every string of up to 3 characters; the loop carries no other state)",
     "tests convert a few names", ["src/common_utils.cpp", "src/common_utils.h"],
     [{"name": "topic conversion", "where": "src/common_utils.cpp ConvertToValidMqttTopicString, IsValidMqttTopicString"}], ABS, TBL)
prop("U03", "The spent-time meter measures from its latest start, rounded up",
     "The meter's start time is the clock at its latest Start; the spent time is the clock now minus that, rounded up to whole microseconds.",
     ["inputs"], "all clock readings", "tests cannot sample rounding at every fraction", ["src/common_utils.cpp", "src/common_utils.h"],
     [{"name": "time meter", "where": "src/common_utils.cpp TSpentTimeMeter"}], ABS, TBL)
# ---------------------------------------------------------------- files and error classes
prop("F01", "File helpers try, visit and report exactly as documented",
     "TryOpen tries the names in order until one opens and tells whether one did. OpenWithException raises an error exactly when the file "
     "cannot be opened; WriteToFile writes exactly the value. IterateDir passes every entry's name to the callback until it accepts one, and raises "
     "TNoDirError when the directory cannot be read. IterateDirByPattern offers the full path of exactly the entries whose name contains the pattern, in "
     "sorted order on request, and returns the accepted path or an empty string.",
     ["fault_sequences", "inputs"], "all outcomes of opens and directory reads, all names (decided for up to 3 entries)",
     "no test makes opening fail or reads a directory that is gone",
     ["src/file_utils.cpp", "src/file_utils.h"], [{"name": "file helpers", "where": "src/file_utils.cpp"}], ABS, TBL)
prop("X01", "Error classes keep their hierarchy and no handler is shadowed",
     "A response timeout is a transient device error, a permanent register error and an errno error are not; every device error is a "
     "TSerialDeviceException and every Modbus codec error a Modbus::TErrorBase; errno and Modbus exception errors carry the code they were made "
     "with; no catch clause of the program is made unreachable by an earlier one of the same try block, so each error gets the reaction meant for it.",
     ["inputs"], "every error class and every try block of the program", "tests provoke only some of the errors",
     ["src/serial_exc.h", "src/serial_exc.cpp", "src/modbus_base.h", "src/modbus_base.cpp"],
     [{"name": "error classes", "where": "src/serial_exc.h, src/modbus_base.h"}], "class-hierarchy and handler-order query over the type-checked program, with path summaries of the constructors", TBL)

# ---------------------------------------------------------------- the whole program
FLOW = "interprocedural dataflow over the type-checked AST: sets of abstract states per outcome, to a fixpoint over the whole program"
prop("W01", "No device, port or value error ends a thread of the service",
     "Whatever a device answers, however a port fails and whatever value is written: an exception raised by a device driver, a protocol codec, a port or "
     "the conversion of a register's value while a thread of the service works is handled within that thread, so that it is reported for the register, "
     "the device or the request it belongs to. It never leaves the thread's function and never reaches a handler that ends the process.",
     ["inputs", "histories"], "every exception raised in any function a thread can reach, along every call chain",
     "tests provoke a few errors in a few drivers; the guarantee is about every driver, port and call chain",
     ["src/serial_client.cpp", "src/serial_client_device_access_handler.cpp", "src/serial_device.cpp", "src/serial_port_driver.cpp", "src/serial_driver.cpp"],
     [{"name": "error handling of the port thread", "where": "src/serial_device.cpp TSerialDevice::ReadRegisterRange, src/register_handler.cpp TRegisterHandler::Flush"}],
     FLOW + " of the exceptions that can leave each function",
     "Exceptions that only a broken rule of the program itself raises (std::logic_error and std::runtime_error guards, requests the program composed wrongly) are outside; "
     "virtual calls go to every overrider, calls through std::function to every function converted to that type.")
prop("W03", "Every RPC request is answered exactly once",
     "A request served by a task on a port gets exactly one answer, result or error: the task gives it before it is done, whatever fails and whatever the device "
     "answers, and never answers a request it still has to repeat. A request handler either answers the request itself or hands it over to exactly one port, never both and "
     "never neither.",
     ["inputs", "histories"], "every path, normal and exceptional, of every task and asynchronous request handler, with the functions they call",
     "tests run a few tasks against devices that answer; the error paths of each task and each handler are many and mostly untested",
     ["src/rpc/rpc_port_driver_list.cpp", "src/rpc/rpc_port_load_serial_client_task.cpp", "src/rpc/rpc_device_load_config_task.cpp", "src/rpc/rpc_device_set_task.cpp", "src/rpc/rpc_fw_update_handler.cpp"],
     [{"name": "answers of requests", "where": "ISerialClientTask::Run overriders, RegisterAsyncMethod handlers, TSerialClientTaskRunner::RunTask"}],
     FLOW + " of the answers given along each path",
     "A request comes with both of its answer functions; a handler that raises before it did anything is answered by the RPC server of the library.")
prop("W04", "No task given to a port is lost, reordered or run twice",
     "A task given to a port (a request to serve or a value to write) is run by the port's thread, tasks in the order they were given. A task that reports it must be repeated "
     "stays queued on a polled port; every other one is run exactly once. This holds whatever other tasks do or raise and for tasks that arrive while others run. The thread is "
     "told of each new task, and a port that is not polled counts as idle exactly when it has no task.",
     ["schedules", "histories"], "all results of the tasks, exceptions included, and a task that arrives at any point between or during runs (decided for two queued tasks and a late one)",
     "which tasks fail, repeat or arrive in the middle of a run is a matter of timing that tests do not reproduce",
     ["src/serial_client.cpp", "src/rpc/rpc_port_driver_list.cpp"],
     [{"name": "task queues", "where": "src/serial_client.cpp TSerialClient::AddTask, WaitForPollAndFlush; src/rpc/rpc_port_driver_list.cpp TSerialClientTaskExecutor"}],
     ABS, "Tasks are opaque: any result, any exception derived from std::exception (ports that are not polled); waiting is abstracted by its predicate.")
prop("W05", "A request is served on the port and for the device it names",
     "A request that names a device by its id is served by the port of the first polled device with that id; otherwise by the first polled port with the description the request "
     "gives, and for the first device of that port with the request's address and type (any Modbus device when no type is given). A port that is not polled gets one task executor: "
     "the one of the same description if there is one, else a new one; to make room only executors without tasks are removed.",
     ["inputs", "histories"], "all equalities of ids, descriptions, addresses and types (decided for two ports with three devices and for up to five executors)",
     "tests use one port; mixing up ports or devices shows only with several", ["src/rpc/rpc_port_driver_list.cpp"],
     [{"name": "ports and executors", "where": "src/rpc/rpc_port_driver_list.cpp TSerialClientTaskRunner"}],
     ABS, "Descriptions of ports, JSON fields and device configurations are opaque values compared for equality.")
prop("P01", "A device's connection state follows its exchanges as documented",
     "A device is connected after every successful exchange. It becomes disconnected after a failed exchange when at least device_max_fail_cycles exchanges in a row failed since the "
     "last success and more than device_timeout_ms passed since it (whether the exact moment counts is open). A negative value of either setting switches this off: failures then "
     "change nothing. Every change of the state is announced to the listeners, once, and nothing else is.",
     ["inputs", "histories"], "all sequences of results up to the bound over symbolic limits and clock readings",
     "the state depends on numbers of failures and elapsed times of long histories; no test covers the limits", ["src/serial_device.cpp"],
     [{"name": "connection state", "where": "src/serial_device.cpp TSerialDevice::SetTransferResult, SetDisconnected"}],
     ABS, "Histories of three (quick) or four (thorough) results; symbolic limits, so every comparison with them is covered.")
prop("P02", "Ports are opened and closed as the reconnect settings say",
     "A closed port is opened unless an attempt failed less than the reopen timeout ago; a failed attempt is reported. An open port is closed after a cycle in which all exchanges "
     "failed when at least connection_max_fail_cycles such cycles in a row and more than connection_timeout_ms passed since it was opened or last worked (whether the exact moment "
     "counts is open). A cycle with a success never closes the port; a negative value of either setting switches closing off.",
     ["inputs", "histories"], "all sequences of openings and cycles up to the bound over symbolic limits and clock readings",
     "the state depends on numbers of failures and elapsed times of long histories", ["src/port/port.cpp"],
     [{"name": "port reconnection", "where": "src/port/port.cpp TPortOpenCloseLogic"}],
     ABS, "Histories of four (quick) or five (thorough) steps; symbolic limits and times.")
prop("P03", "A device is set up before use, and sessions with devices do not mix",
     "Before a device is accessed the session with another device that was accessed last is ended. A device that is not connected, or was not the last accessed, is prepared: when it "
     "was not connected every setup item is written, with its own value and in order, and its events are then enabled; if that fails the device counts as disconnected. Access is "
     "granted only when all steps succeeded; the first failing step ends them, is recorded as a failed exchange and never leaves the poll.",
     ["histories", "fault_sequences"], "every sequence of up to three accesses to two devices and none, each connection state, each failing step",
     "tests have one device and no failures of setup", ["src/serial_client_device_access_handler.cpp", "src/serial_device.cpp"],
     [{"name": "access to devices", "where": "src/serial_client_device_access_handler.cpp PrepareToAccess; src/serial_device.cpp TSerialDevice::Prepare, WriteSetupRegisters"}],
     ABS, "The device's own PrepareImpl, EndSession and WriteRegisterImpl are opaque: they succeed or raise TSerialDeviceException. Setup is decided for up to two items.")
prop("P04", "A value set by the user is written, retried and reported as documented",
     "The newest value set for a register is written once per attempt, after its device was set up; nothing is written while the port is closed, the device disconnected or the "
     "register unsupported. A failed attempt is repeated until max_write_fail_time_s passed since the first failure (0: one attempt; up to a second more is open), also when the device "
     "cannot be set up or reached; a value the device refuses, or a register it does not support, is not tried again. A value set during an attempt is never lost. Each failure sets the "
     "register's write error and is reported; success clears it and reports the value, leaving the read error as it is. A value that cannot be converted changes nothing.",
     ["inputs", "histories", "schedules"], "every history of values and attempts up to the bound, each outcome, a value set in the middle of an attempt, symbolic limit and times",
     "retries depend on elapsed time, and values set during a write on timing", ["src/register_handler.cpp", "src/write_channel_serial_client_task.cpp"],
     [{"name": "pending value", "where": "src/register_handler.cpp TRegisterHandler; src/write_channel_serial_client_task.cpp Run"}],
     ABS, "Histories of up to five steps. The device's WriteRegister is opaque (success or one of three kinds of errors); values are integers; setting a value is atomic.")
prop("P05", "Each read value, error and silence is recorded as what it is",
     "When a range of registers is read one by one, every register not marked as unavailable is read once and in order. A value is taken over; an error marks the register's read error, and the "
     "register as unavailable only if the device says it has no such register; the device counts as not answering only when it did not answer. Errors end the reading only when the caller "
     "asked for that and are then passed on. Replies a driver cached are never used by a later reading. The configured unsupported value makes a register unavailable and ends its polling, the "
     "configured error value is a read error, any other value clears that error (unless the firmware does not support the register or the error is to be kept) and no other error.",
     ["inputs", "fault_sequences"], "every outcome of each read of up to two registers; all values, error values and settings",
     "each kind of error has its own path; tests reach few and cannot tell wrong bookkeeping from slow recovery", ["src/serial_device.cpp", "src/register.cpp"],
     [{"name": "reading and recording", "where": "src/serial_device.cpp TSerialDevice::ReadRegisterRange; src/register.cpp TRegister::SetValue, SetAvailable, SetError, ClearError"}],
     ABS, "The default reading (drivers without block reads); a driver's own ReadRegisterImpl is opaque with every kind of error.")
prop("P06", "Every register of a polled device is read when due and stays scheduled",
     "A device polls exactly its readable registers, those with a read period apart from the others. Due registers are put into one request in order until one does not fit the allowed time "
     "(the first always fits when something has to be read); the others stay due. After a reading, or a cycle with the port closed, each register is due again after its read period, its rate "
     "limit, or at once; one excluded from polling (sporadic or unavailable) only until it has a value. When the device cannot be made ready every register of the request gets a read error and "
     "nothing is read. After a disconnection every excluded register is polled again, once. With a minimum request interval other registers wait for it.",
     ["inputs", "histories", "fault_sequences"], "every setting of the registers, times and limits symbolic, every outcome of reading",
     "losing a register from the schedule shows only after a particular sequence of errors; tests poll a few registers with fixed periods", ["src/pollable_device.cpp"],
     [{"name": "registers of a device", "where": "src/pollable_device.cpp TPollableDevice"}],
     ABS, "Decided for two registers, due or not. The queue itself is the subject of Q01; reading is opaque and may change each register's state.")
prop("P07", "Devices stay scheduled exactly while they are to be polled",
     "Every device with registers is in the poll schedule exactly once per priority, unless its poll is suspended. A cycle polls at most one device, low-priority ones only below the rate limit "
     "(against which every low-priority register read counts), reports every register read exactly once, and schedules the device again: when its registers are due, or, while it is disconnected, "
     "after a delay that grows by 500 ms a poll from 0 to 10 s and is forgotten once it is connected. When a device loses its connection, all its registers are polled again from the next cycle on. With the port "
     "closed every due register gets a read error, is reported and counts as a failed exchange. Suspending takes a device out of the schedule and marks it disconnected; it is not polled until it is "
     "resumed or 10 minutes passed, and is then scheduled with all its registers. Unknown devices cannot be suspended, others not resumed. Each cycle's result names the device polled, whether time was "
     "too short, and when the next cycle is due.",
     ["histories", "fault_sequences", "schedules"], "all histories of cycles, suspensions, resumptions and connection changes (the reachable abstract states are enumerated to the fixpoint), all times and delays symbolic",
     "a device that drops out of the schedule or is polled while suspended needs a disconnection or suspension at a particular moment", ["src/serial_client_register_poller.cpp"],
     [{"name": "poller", "where": "src/serial_client_register_poller.cpp TSerialClientRegisterPoller"}],
     ABS, "Decided for one device with registers of both priorities and one with low-priority ones (thorough: and a second device). What a poll reads is P06, the order of devices Q02, the rate limiter Q03; they are opaque here.")
prop("V01", "Register values convert exactly between text and device bits",
     "A value read from a device is shown as its format says: integers sign-extended from their width and exactly, BCD as the number it spells, floating point with 7 (Float) or 15 digits, texts as "
     "they are. With a scale, offset or rounding, a number is multiplied by the scale, the offset is added, and the result is rounded to a multiple of round_to. A text to be written is read as a "
     "decimal (hexadecimal after 0x) integer of the sign of the format, or as a real number, which is rounded to round_to; the offset is taken off, the result divided by the scale, rounded to "
     "an integer, and cut to the width of the format. An empty text, one that is not a number as a whole, one out of range, and a negative one of an unsigned format are refused. "
     "A value of the other type (text, number) is refused.",
     ["inputs"], "all formats, all values and texts, all scales, offsets and roundings",
     "each format, with and without scaling, has its own path, and wrong bits show only for values at the edges of a width", ["src/register.cpp", "src/register_value.cpp"],
     [{"name": "conversion", "where": "src/register.cpp ConvertFromRawValue, ConvertToRawValue, FromScaledTextValue, ToScaledTextValue, RoundValue"}],
     ABS, "Floating point operations are compared by their structure (an expression of other operations is undecided). What stoll, stoull, stod, llround and printf compute is theirs; BCD is B01.")
prop("V02", "A register's format and configuration decide its width, access and address",
     "A register is as wide as its format; its data as configured, or as wide as the format. It spans the 16-bit words that its format and data need; a text the words of its characters. Data that "
     "starts beyond the format's bits is refused. A register with only a write address is write-only, a readonly one read-only; one without addresses, or readonly without a read address, is "
     "refused. The n-th element of a list is n widths from its start, in address steps of the type, rounded up. Addresses are ordered as numbers. Values are equal exactly when of the same "
     "type and content, and are only returned as the type they have.",
     ["inputs", "configurations"], "all formats, offsets, widths, addresses and values",
     "widths that are not whole words and addresses that do not divide evenly occur in few configurations", ["src/register.cpp", "src/register_value.cpp"],
     [{"name": "register configuration", "where": "src/register.cpp TRegisterConfig, RegisterFormatByteWidth, TUint32RegisterAddress"}, {"name": "values", "where": "src/register_value.cpp TRegisterValue"}],
     ABS, "Offsets and widths up to 1000 bits; elements of up to 8 bytes, steps up to 8.")
prop("R01", "Registers read over Modbus get the device's values",
     "A reply to a read request gives every register in it its own bits: words at its address, in its word and byte order, of the bits its configuration selects; coils and inputs their own bit; "
     "texts their characters up to the end mark. The words are remembered at their addresses for holding registers only. A reply with less data than was requested is an error, not read beyond its end. "
     "A read sends one request for the register's address; exceptions 'illegal function', 'illegal address' and 'illegal value' are permanent errors, other failures transient ones, and errors of the "
     "port are passed on. Noise is skipped exactly after a malformed reply.",
     ["inputs", "fault_sequences", "configurations"], "all types, formats, word and byte orders, a family of bit positions and of places in a request, all contents and lengths of replies, every failure of the exchange",
     "a device that answers with fewer bytes than asked, and each combination of format, order and bit position, needs its own sample", ["src/modbus_common.cpp"],
     [{"name": "reading", "where": "src/modbus_common.cpp TModbusRegisterRange::ReadRange, ParseReadResponse, GetRegisterValue, ParseSingleBitReadResponse, Modbus::ReadRegister"}],
     ABS, "Exchanges are opaque (what they put on the line are M01-M06).")
prop("R02", "Registers written over Modbus change their own bits only",
     "Writing a register sends its value's bits to its write address plus the shift, in its word and byte order: a register of several words in one request, one of single words word by word, a coil on for any "
     "value but 0, a text's characters as bytes up to its width. Bits of the words that the register does not own keep the remembered contents. What was written is remembered once it was confirmed, "
     "not when writing failed, and not for write-only registers. Every reply is examined; a refusal 'illegal function', 'illegal address' or 'illegal value' is a permanent error, others are transient, errors of the "
     "port are passed on; noise is skipped exactly after a malformed reply. Input types are refused without a request.",
     ["inputs", "fault_sequences", "configurations"], "all types and word and byte orders, the formats of each width, a family of bit positions, all values, all remembered contents, every failure of the exchange",
     "bits of a neighbour in the same word change only for particular widths, positions and values", ["src/modbus_common.cpp"],
     [{"name": "writing", "where": "src/modbus_common.cpp Modbus::WriteRegister, ComposeNumberWriteRequestWords, ComposeStringWriteRequestWords, ComposeRawSingleWriteRequestData, WriteTransaction"}],
     ABS, "Exchanges are opaque (M01-M06). Not covered: registers that share words but not their byte order, and part registers of several words written word by word.")
prop("R03", "Registers share a Modbus read only within the documented limits",
     "A register joins a read request exactly when it is of the same device and type, not before the request's start, and no further from its end than the holes the device allows (none if it does not support them); "
     "when the request then has at most max_read_registers registers (and at most 125, or 2000 single-bit ones) and its exchange fits the time left; and when, unless continuous reading is on, it is known to exist "
     "like the others are: unknown registers are read alone, unknown single-bit ones up to 16 together without holes. Registers the device does not have are left out. The request then spans exactly its registers, "
     "and counts as having holes exactly when it has; one that refused a register is unchanged. The time of an exchange is the sending time of its bytes, the response time, the request delay and, if forced, the frame timeout.",
     ["inputs", "configurations"], "all addresses, widths, counts, limits and settings (symbolic); times symbolic for ten placements",
     "a limit that is off by one, or a hole counted twice, needs registers at particular distances", ["src/modbus_common.cpp"],
     [{"name": "grouping", "where": "src/modbus_common.cpp TModbusRegisterRange::Add, AddingRegisterIncreasesSize, InferReadResponsePDUSize"}],
     ABS, "Ranges of 0, 1 and 16 registers of any span; devices are Modbus devices. In quick mode the range starts at address 1000.")
prop("R04", "Setup registers are all written, in order, with the words they stand for",
     "Writing a setup writes every item once, in order, to its write address plus the shift: neighbouring whole holding registers in one request of at most max_write_registers (and 123) registers, others one by one. "
     "What partial registers have besides their value is read first, with the shift, unless it is known or they are write-only, and follows the setup's own writes; if that reading fails nothing is written. A register that is refused for "
     "good is skipped, or ends the setup with an error if asked so; any other failure ends it. What was written is remembered once confirmed. The device counts as answering when all is done.",
     ["inputs", "configurations", "fault_sequences"], "a family of lists of up to four items of all kinds, with all values, shifts and limits, every outcome of each exchange",
     "an item is lost or a neighbour overwritten only for particular neighbours in the list, or when one of the exchanges fails", ["src/modbus_common.cpp"],
     [{"name": "setup", "where": "src/modbus_common.cpp Modbus::WriteSetupRegisters, WriteMultipleSetupRegisters, FillSetupRegistersCache"}],
     ABS, "Exchanges are opaque (M01-M06), so is the grouping of reads (R03). Lists of the family only: up to four items.")
prop("R05", "A failed read marks its registers, and refusals have lasting effect",
     "When a read fails, every register of the request gets a read error and the exchange counts as failed. A request refused for good (illegal function, address or value) makes its registers unavailable, unless it has holes, "
     "which are then no longer used for the device, or refusals are to be ignored. Other failures change neither. The caller gets the error exactly if it asked to; an empty request is not sent.",
     ["fault_sequences", "configurations"], "every outcome of the exchange and all settings, requests of 0, 1 and 3 registers",
     "wrongly disabling registers or holes needs a refusal with a particular shape of request", ["src/modbus_common.cpp"],
     [{"name": "errors", "where": "src/modbus_common.cpp Modbus::ReadRegisterRange, ProcessRangeException"}],
     ABS, "The exchange is opaque (R01).")
