"""technique and level note per property, beyond the first ones in mkmanifest.py"""
T_TRACE = "TLA+ specification; traces recorded from the real code validated against it by TLC"
NOTES = {
    "C07": (T_TRACE + " (TraceTcp over a virtual network and virtual time)",
            "Random segmentations, interleavings of clients, slow readers and thread schedules; TLC searches for an order of the "
            "requests which explains all bytes. The network is a stand-in for sockets and select."),
    "C08": (T_TRACE + " (TraceTcp over a virtual network and virtual time)",
            "Random misbehaviour of clients (eof, reset, silence, garbage, slow readers, accept errors). The network is a stand-in."),
    "C09": (T_TRACE + " (TraceRtu over a virtual serial port and virtual time)",
            "Random frames, corruptions, splits and silences at several baud rates; the port is a stand-in for pyserial's."),
    "C10": ("TLA+ design model (LifeImpl) checked with TLC; single preemptions of the real threads enumerated, traces validated by "
            "TLC against Life", "All (or evenly sampled) single preemptions between bytecodes of 28 scripts, random ones beyond."),
    "C22": ("TLA+ specification (Life) checked with TLC; single preemptions of the real threads enumerated, traces validated by TLC",
            "All (or evenly sampled) single preemptions between bytecodes of short scripts, random ones beyond."),
    "C11": ("TLA+ design model (Exchange) checked with TLC, its behaviours replayed on the real master; " + T_TRACE + " (TraceMaster)",
            "All sequences of 3 (4) peer behaviours; random calls and wrong replies beyond. Network and time are stand-ins."),
    "C12": ("TLA+ design model (Exchange) checked with TLC, its behaviours replayed on the real masters; " + T_TRACE + " (TraceMaster)",
            "All sequences of 3 (4) peer behaviours; random calls and wrong replies beyond. Network, port and time are stand-ins."),
    "C13": (T_TRACE + " (TraceMaster, Codec)", "Random calls of every function over the three transports."),
    "C14": ("TLA+ design model (Exchange) replayed on the real masters; " + T_TRACE + " (TraceMaster, Codec)",
            "Random calls of every function and random replies, right and wrong, over the three transports."),
    "C17": ("TLA+ design model (Exchange) checked with TLC, its behaviours replayed on the real masters; " + T_TRACE + " (TraceMaster)",
            "All sequences of 3 (4) peer behaviours; random failures beyond. Time is virtual."),
    "C15": ("TLA+ design model (Mutex) checked with TLC; single preemptions of the real threads enumerated, traces validated by TLC "
            "against TraceMutex", "All (or evenly sampled) single preemptions between bytecodes of short scripts, random ones beyond."),
    "C16": ("TLA+ design model (Tid) checked with TLC; sequences of ids and schedules of the real threads validated by TLC against "
            "TraceTid", "Several rounds of all ids; all (or evenly sampled) preemptions between bytecodes of threads which build requests."),
    "C18": (T_TRACE + " (TraceHooks, over a virtual network, serial port and virtual time)",
            "Random installs, uninstalls (also by hook functions), return values and traffic at every hook point of three masters and "
            "two servers; which function is called when and with what, and all bytes sent, are explained by the specification."),
    "C19": ("TLA+ design model (HookLocks) checked with TLC, its scenarios played by real threads under a deterministic scheduler; "
            "traces validated by TLC (TraceCalls)",
            "Every pair of calls with every kind of call in the hook functions; sampled preemptions between bytecodes for each."),
    "C20": ("TLA+ specification of the commands (Commands) explored with TLC, its states reached in the real simulator; " + T_TRACE
            + " (TraceSim)",
            "Every state a few commands reach within 4 (5) steps with all commands in it; random sequences of commands beyond. The "
            "console, sockets and time are stand-ins."),
    "C21": ("TLA+ design model (Answers) checked with TLC; " + T_TRACE + " (TraceSim)",
            "Random schedules of the console and RPC clients with long and slow commands; TLC searches for an order of the commands "
            "which explains all answers. The console, sockets and time are stand-ins."),
    "C24": (T_TRACE + " (TraceAdapter, Codec, Slave, over a virtual network and virtual time)",
            "Random sequences of all methods of the adapter against a real server, with faults of the network, missing slaves and "
            "changes by the server's application; the specification of the slave answers for the data."),
    "C25": ("TLA+ linearizability specification (Lin with Codec and Databank); whole systems of real masters and servers run under a "
            "deterministic scheduler, histories validated by TLC",
            "Random systems (several or shared TCP masters, an RTU line, the application's own thread) under sampled preemptions "
            "between bytecodes; the network, the line and time are stand-ins."),
    "C26": (T_TRACE + " (TraceFail over Databank, virtual network, serial port and virtual time)",
            "Random functions which raise at every hook point of three masters and two servers, then requests, connects, restarts "
            "and calls without; the network, the port and time are stand-ins."),
    "C27": ("TLA+ model of the checksum (Framing) checked with TLC; " + T_TRACE + " (TraceFraming)",
            "The model covers every bit of the longest frame; all frames of two bytes, all changes of one and two bits of eight "
            "frames, random bursts, frames and histories beyond."),
    "C28": ("TLA+ model of objects in one process as a refinement of one object alone (Company, Solo) checked with TLC; " + T_TRACE
            + " (TraceDatabank, TraceTcp, TraceRtu, TraceMaster), each object by itself",
            "Random groups of two to four servers, masters and databanks at work at the same time under sampled preemptions; what is "
            "rejected is tried once more alone. The network, the lines and time are stand-ins."),
    "C29": ("TLA+ model of the lives of simulators (SimLife) checked with TLC; " + T_TRACE + " (TraceSimLife, virtual network and time)",
            "The model is exhaustive for three servers, two silent clients and three lives; random lives of the real simulator under "
            "sampled preemptions. Custom servers and TcpServer in a CompositeServer; the network, console and time are stand-ins."),
}
