"""What each check runs. A run is "entry:param=value,..."; parameters are the bounds of that run."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {}; NOT_APPLICABLE = {}
def check(id, **kw): CHECKS[id] = dict(level=kw.pop("level", "model_checking"), **kw)
STR = ["-D_GLIBCXX_ASSERTIONS"]
def known_findings():
    """known_findings.txt: 'finding: property=<id> match=<assertion text> :: <what fails>' and 'fixed: ...' (suppresses nothing)"""
    r = []; p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: "):
                head, _, text = l[9:].partition(" :: "); prop, _, match = head.partition(" match=")
                r.append(dict(property=prop.replace("property=", "").strip(), match=match.strip(), text=text.strip()))
    return r

check("C08", harness="h_util.cpp", flags=STR, runs=["c08:len=%d" % i for i in range(0, 11)], thorough=["c08:len=%d" % i for i in range(11, 14)], covers=["normalized-nonempty", "root", "leading"],
      bounds="every path of 0..10 (thorough 0..13) arbitrary non-NUL bytes", assumptions=["path bytes are non-NUL"])
check("C09", harness="h_util.cpp", flags=STR, runs=["c09:parent=%d,path=%d" % (p, q) for p in range(0, 7) for q in range(0, 9)], thorough=["c09:parent=%d,path=%d" % (p, q) for p in range(0, 9) for q in range(9, 12)], covers=["refused", "relativized", "component"],
      bounds="every parent of 0..6 and path of 0..8 arbitrary non-NUL bytes (thorough: 8 and 11)", assumptions=["path bytes are non-NUL", "exactness is asserted when both paths are absolute; memory safety for all"])
check("C34", harness="h_util.cpp", flags=STR, runs=["c34:len=%d" % i for i in range(0, 13)], thorough=["c34:len=%d" % i for i in range(13, 21)], covers=["joined", "trailing"],
      bounds="every path of 0..12 (thorough 0..20) arbitrary non-NUL bytes", assumptions=["path bytes are non-NUL"])
check("C03", harness="h_util.cpp", flags=STR, runs=["c03:len=%d" % i for i in range(0, 8)] + ["c03:len=%d,form=1" % i for i in range(0, 6)] + ["c03:len=%d,form=2" % i for i in range(0, 6)] + ["c03:len=%d,form=3" % i for i in range(0, 4)] + ["c03:len=%d,form=4,vlen=1" % i for i in range(0, 3)] + ["c03:len=%d,form=5" % i for i in range(0, 4)],
      thorough=["c03:len=8", "c03:len=6,form=1", "c03:len=6,form=2", "c03:len=5,form=3,vlen=3"], covers=["reference", "default", "undefined"],
      bounds="texts of up to 7 arbitrary bytes, and skeletons with references around up to 5 arbitrary bytes; values of 2 arbitrary bytes for a process variable, a shadowed one and two overrides")
check("C33", harness="h_util.cpp", flags=STR, runs=["c33:len=%d,file=%d" % (i, f) for i in range(0, 5) for f in range(0, 7)] + ["c33:len=%d,file=%d,prefix=%d,suffix=%d" % (i, f, p, q) for i in (1, 2) for f, p, q in ((5, 1, 0), (5, 4, 1), (0, 2, 0), (0, 6, 6), (1, 5, 0), (4, 7, 7), (5, 3, 0), (5, 0, 1), (0, 0, 2))] + ["c33:len=0,unset=1"],
      thorough=["c33:len=%d,file=%d" % (i, f) for i in (5, 6) for f in (0, 1, 3, 4)], covers=["selected", "not-selected"],
      bounds="selection lists of up to 4 arbitrary bytes, and with fixed entries before and after 2 arbitrary bytes, for 7 source file names (plain, with directories, several dots, hidden, repetitive)")

CFG = "h_config.cpp"; CFGA = ["files are read and passed as one string (Main's part is covered elsewhere)", "realpath() is lexical over an existing tree without symbolic links; absolute working paths only where stated"]
check("C01", harness=CFG, flags=STR, runs=["c01:len=%d,head=%d" % (i, h) for h in (0, 1, 2) for i in range(0, 6)] + ["c01:len=%d,head=%d" % (i, h) for h in range(3, 16) for i in range(0, 5)] + ["c01:len=%d,head=%d,tail=%d" % (i, h, t) for i in range(1, 4) for t in range(1, 5) for h in (2, 3, 5, 6, 7, 8, 9, 12, 13)],
      thorough=["c01:len=6,head=%d" % h for h in (0, 1, 2)] + ["c01:len=5,head=%d" % h for h in range(3, 16)], covers=["loaded", "rejected", "command"],
      bounds="every text of up to 5 arbitrary bytes, alone and after each of 15 prefixes that reach every parser state, and up to 3 before 4 suffixes (thorough: 6 and 5)", assumptions=CFGA)
check("C02", harness=CFG, flags=STR, runs=["c02:pos=%d,pieces=%d,tokens=%d,comment=%d" % (p, k, t, c) for p in range(0, 5) for k, t, c in ((1, 0, 0), (1, 1, 0), (1, 2, 1), (2, 1, 1), (2, 2, 0), (3, 1, 0))],
      thorough=["c02:pos=%d,pieces=1,tokens=3" % p for p in range(0, 5)], covers=["escape", "hex", "argument", "command", "host", "setting"], bounds="words of up to 3 adjacent pieces (single-quoted, double-quoted, unquoted) and up to 4 characters or escapes with arbitrary bytes and hex digits, in 5 positions", assumptions=CFGA)
CHECKS["C03"]["harness"] = "h_c03.cpp"
CHECKS["C03"]["runs"] += ["c03cfg:pieces=%d,tokens=%d" % pt for pt in ((1, 1), (2, 1), (3, 1), (1, 2), (2, 2), (1, 3))] + ["c03cfg:pieces=%d,tokens=1,vlen=%d" % pv for pv in ((2, 12), (2, 0), (3, 1), (3, 6))]; CHECKS["C03"]["thorough"] += ["c03cfg:pieces=3,tokens=2,vlen=1"]; CHECKS["C03"]["covers"] += ["expanded", "literal"]
P = [(0, 0, 0), (6, 0, 0), (0, 6, 0), (0, 0, 6), (6, 6, 0), (6, 0, 6), (0, 5, 6), (7, 0, 0), (0, 7, 0), (6, 6, 6), (1, 0, 0), (0, 0, 1), (21, 0, 0), (0, 0, 22)]
check("C04", harness=CFG, flags=STR, runs=["c04:p0=%d,p1=%d,p2=%d,digits=1" % p for p in P] + ["c04:p0=%d,p1=0,p2=0" % (k + 1) for k in (1, 2, 3)] + ["c04:p0=0,p1=0,p2=3", "c04:twice=1,p0=0", "c04:twice=1,p0=3,p1=0,p2=2", "c04:again=1", "c04:again=1,p0=2,p2=3,digits=1", "c04:twice=1,again=1,same=1", "c04:same=2,again=1", "c04:same=1,p0=2,p2=2,digits=1", "c04:same=1,p1=3"], thorough=["c04:p0=7,p1=0,p2=0,digits=1,full=1", "c04:p0=0,p1=7,p2=0,digits=1,full=1"] + ["c04:p0=%d,p1=%d,p2=%d,digits=1" % (a, b, c) for a in (0, 2, 5, 8) for b in (0, 3, 6) for c in (0, 4, 6)], covers=["bad-port", "client", "host", "listed again"],
      bounds="three sections, each without port or with a port of up to 21 digits (up to 5 arbitrary, longer ones with two arbitrary digits at each end; thorough up to 6) (or up to 3 arbitrary bytes), each listing one of two command names (every combination), optionally one more and optionally one of the two again; the third section optionally for the first or second one's host", assumptions=CFGA)
check("C05", harness=CFG, flags=STR, runs=["c05:hw=%d,hl=%d,cw=%d,cl=%d,opt=%d" % x for x in ((0, 1, 0, 1, 0), (1, 1, 1, 1, 0), (1, 2, 1, 2, 1), (1, 3, 1, 3, 0), (1, 4, 0, 1, 1), (2, 2, 1, 1, 0), (2, 3, 0, 0, 1), (0, 1, 2, 2, 0), (0, 1, 2, 3, 1), (0, 1, 1, 5, 0), (0, 1, 3, 2, 0), (1, 2, 2, 2, 0))], thorough=["c05:hw=%d,hl=%d,cw=%d,cl=%d,opt=1" % x for x in ((2, 3, 2, 2), (0, 1, 3, 3), (3, 2, 0, 1), (0, 1, 4, 2))], covers=["header-entry", "entry", "argument", "default-executable"],
      bounds="up to 3 header words of up to 4 and 3 command words of up to 5 arbitrary bytes (without blanks, quotes, # and $), each unquoted, quoted or empty", assumptions=CFGA + ["header words do not start with a dash unless they are options"])
check("C06", harness=CFG, flags=STR, runs=["c06:kind=0,len=%d,at=%d,noeq=%d" % (n, at, q) for at, m in ((0, 4), (1, 2), (2, 2), (3, 1), (4, 2)) for n in range(0, m + 1) for q in (0, 1) if n or at == 2 or at == 3] + ["c06:kind=1,len=%d,at=%d" % (n, at) for n in range(0, 3) for at in (0, 1)] + ["c06:kind=2,len=%d,at=%d,dq=%d,doubled=%d" % (n, at, q, d) for n in range(0, 4) for at in range(0, 8) for q in (0, 1) for d in (0, 1)] + ["c06:kind=3,len=%d,at=%d" % (n, at) for n in range(0, 3) for at in range(0, 8)] + ["c06:kind=4,at=%d,more=%d" % (at, m) for at in range(0, 8) for m in (0, 1)] + ["c06:kind=5,len=%d,at=%d" % (n, at) for n in range(0, 4) for at in (0, 1)] + ["c06:kind=6,len=%d,at=%d" % (n, at) for n in range(0, 3) for at in range(0, 7)] + ["c06:kind=7,len=%d,at=%d" % (n, at) for n in range(0, 4) for at in range(0, 7)] + ["c06:kind=8,len=%d" % n for n in range(1, 4)],
      thorough=["c06:kind=0,len=5,at=0", "c06:kind=2,len=5,at=0,dq=1", "c06:kind=2,len=5,at=1", "c06:kind=7,len=5", "c06:kind=8,len=5", "c06:kind=5,len=5,at=1"], covers=["unknown-setting", "extra-words", "unterminated", "unknown-escape", "bad-hex", "no-bracket", "no-name", "not-a-number", "two-names"],
      bounds="nine kinds of malformed text with up to 4 arbitrary bytes each, in up to 8 positions", assumptions=CFGA)
check("C07", harness=CFG, flags=STR, runs=["c07:kind=0,len=%d,at=%d,dir=%d,after=%d" % (n, at, d, a) for n in range(0, 5) for at in range(0, 5) for d in (0, 1, 2, 3, 4) for a in (0, 1) if n < 4 or d == 0] + ["c07:kind=1,len=%d,at=%d,after=%d" % (n, at, a) for n in range(1, 7) for at in (0, 1, 2, 5) for a in (0, 1)] + ["c07:kind=1,len=1,at=%d" % at for at in (3, 4)] + ["c07:kind=2,len=%d,after=1" % n for n in range(0, 3)] + ["c07:kind=3,len=%d,dir=%d,after=%d" % (n, d, a) for n in range(0, 3) for d in range(0, 5) for a in (0, 1)] + ["c07:kind=4"],
      thorough=["c07:kind=0,len=5,at=%d" % at for at in range(0, 5)] + ["c07:kind=1,len=%d,at=%d" % (n, at) for n in (9, 12) for at in (0, 1)], covers=["timeout", "base"], bounds="base directories of up to 4 arbitrary bytes after 5 prefixes and with 5 configuration directories; timeouts of up to 6 arbitrary digits (and the last digit at the limits of the type); comments and blanks of up to 2 arbitrary bytes", assumptions=CFGA)

SOCK = "h_socket.cpp"; SYS = ["system calls are the model in harness/world.cpp: any call may fail with any error where stated"]
check("C20", harness=SOCK, runs=["c20:server=1", "c20:server=0"], covers=["open", "reported", "invalid"], bounds="every port 0..65535; every combination of failing system calls with every errno 1..133", assumptions=SYS)
check("C21", harness=SOCK, flags=STR, runs=["c21:kind=%d,size=%d" % (k, n) for k in (0, 1, 2, 3) for n in range(0 if k < 2 else 1, 6)] + ["c21:kind=%d,size=%d,offset=%d" % (k, n, o) for k in (0, 1) for n, o in ((8192, 0), (8192, 8191), (65541, 0), (65541, 4), (70000, 65540))],
      thorough=["c21:kind=%d,size=%d" % (k, n) for k in (0, 1) for n in (6, 7)] + ["c21:kind=%d,size=131072" % k for k in (0, 1)], covers=["read", "waited", "sent", "written", "failed"], bounds="buffers of 0..5 arbitrary bytes with every offset/range and every split of the transfer; buffers up to 70000 bytes with splits at 1, 2, half, all but one, all; every errno at any call", assumptions=SYS + ["at most 6 (4 for large buffers) transfer calls per operation"])
check("C22", harness=SOCK, runs=["c22:steps=3", "c22:steps=2,low=1", "c22:steps=4,faults=0", "c22:steps=4,pipes=1", "c22:steps=5,pipes=1,faults=0"], thorough=["c22:steps=4", "c22:steps=5,pipes=1", "c22:steps=6,pipes=1,faults=0"], covers=["abandoned", "two owners", "remapped"], bounds="every sequence of 3 operations (4 without failures) on three sockets and of 4 (5) on two pipes, with any system call failing", assumptions=SYS)

SRV = "h_server.cpp"
SESS = SYS + ["the command's three pipes, the socket, process exit and poll behave as POSIX says; nothing else happens in between", "after the stated number of freely chosen events the rest of the session happens one step at a time", "after a failed send every later send on the connection fails"]
ALLEV = "writing to, ending and filling each stream, client data, exit, the command closing its input, the client closing or resetting, in every order"
check("C14", harness=SRV, flags=["-DP=14"],
      runs=["srv:budget=5,i1=1,i2=2,write=2", "srv:budget=4,i1=2,i2=1,i3=1,write=3,recv=2,events=0xe0", "srv:budget=4,i1=2,i2=1,recv=2,write=2", "srv:budget=7,i1=1,i2=1,events=0xe0,write=1,o1=0", "srv:budget=5,i1=3,write=4,events=0x20,cat=1", "srv:budget=5,i1=2,i2=1,write=2,cat=1,o2=1",
            "srv:budget=4,i1=1,o2=1,faults=1,write=1", "srv:budget=4,i1=2,i2=1,write=2,glue=1", "srv:budget=5,i1=2,i2=2,write=2,glue=1,events=0xc0", "srv:budget=4,i1=1,i2=1,multi=1,write=1", "srv:budget=4,i1=2,fin=0,write=1", "srv:budget=4,i1=0,fin=1,cat=1", "srv:budget=4,i1=2,full=1", "srv:budget=5,i1=1,o1=1,full=1,faults=1"]
        + ["srv:budget=3,i1=%d,i2=%d,write=2,recv=%d" % x for x in ((8187, 4, 0), (8192, 1, 0), (8181, 3, 1), (3, 8186, 1))] + ["srv:budget=2,i1=70000,i2=2,write=2", "srv:budget=2,i1=65536,i2=65536,write=1,cat=1"],
      thorough=["srv:budget=6,i1=1,i2=2,write=2", "srv:budget=5,i1=2,i2=1,i3=1,write=3,recv=2", "srv:budget=6,i1=2,i2=1,i3=1,write=4,events=0xe0,o1=0", "srv:budget=5,i1=2,i2=1,write=2,faults=1", "srv:budget=9,i1=1,i2=1,events=0xe0,write=2,o1=0", "srv:budget=6,i1=3,i2=2,write=5,events=0x20,cat=1,o1=0"] + ["srv:budget=4,i1=%d,i2=3,write=2,recv=1" % n for n in range(8180, 8194, 3)],
      covers=["completed", "end of input", "input written", "command closes its input", "process exits"], bounds="up to 3 input messages of up to 3 arbitrary bytes (and of up to 70000 fixed bytes), up to 5 freely chosen events (7 of input, end and exit): " + ALLEV + "; up to 4 refused, interrupted or one-byte writes; thorough 6 (9)", assumptions=SESS)
check("C15", harness=SRV, flags=["-DP=15"],
      runs=["srv:budget=5,o1=2,o2=2", "srv:budget=5,o1=3,o2=3,sizes=2,events=0x1e", "srv:budget=4,o1=3,o2=3,send=1,sizes=2", "srv:budget=6,o1=2,o2=1,events=0x5e", "srv:budget=5,o1=2,o2=0,i1=1,write=1", "srv:budget=4,o1=2,o2=2,faults=1", "srv:budget=4,o1=2,o2=2,multi=1,sizes=1", "srv:budget=7,o1=1,o2=1,events=0x5e,exit=2", "srv:budget=4,o1=2,o2=2,exit=1", "srv:budget=3,o1=0,o2=0", "srv:budget=4,o1=1,o2=2,i1=1,cat=1,sizes=1"]
        + ["srv:budget=3,o1=%d,o2=%d,sizes=1,send=%d" % x for x in ((8187, 2, 1), (8192, 1, 0), (8188, 8187, 0), (2, 16384, 1), (8193, 8186, 1))] + ["srv:budget=2,o1=70000,o2=3,sizes=2,send=1", "srv:budget=2,o1=3,o2=65537,sizes=2"],
      thorough=["srv:budget=6,o1=2,o2=2,sizes=1", "srv:budget=5,o1=3,o2=3,send=1,sizes=2", "srv:budget=5,o1=2,o2=2,faults=1", "srv:budget=5,o1=2,o2=2,multi=1,sizes=1,i1=1", "srv:budget=8,o1=2,o2=2,events=0x5e,sizes=1"] + ["srv:budget=3,o1=%d,o2=3,sizes=2,send=1" % n for n in range(8183, 8194)],
      covers=["completed", "process exits"], bounds="up to 3 arbitrary bytes on each output stream (and up to 70000 fixed ones), up to 5 freely chosen events (7 of output, end and exit): " + ALLEV + "; partial reads and sends; thorough 6 (8)", assumptions=SESS)
check("C16", harness=SRV, flags=["-DP=16"],
      runs=["srv:budget=4,exit=2,i1=1,o2=1", "srv:budget=5,exit=2,o1=1", "srv:budget=4,exit=0,faults=1", "srv:budget=4,exit=1,faults=1", "srv:budget=3,exit=2,fin=2,i1=1", "srv:budget=3,exit=2,fin=3", "srv:nofork=1", "srv:budget=4,exit=2,fin=0,i1=1,o1=1", "srv:budget=4,exit=2,send=1,sizes=1", "srv:budget=3,exit=2,o1=8192,i1=8187"],
      thorough=["srv:budget=6,exit=2,o1=1", "srv:budget=5,exit=2,i1=1,o2=1,write=1", "srv:budget=5,exit=2,faults=1", "srv:budget=4,exit=2,faults=2,i1=1"],
      covers=["completed", "abnormal end", "cut", "fork failed"], bounds="", assumptions=SESS)
check("C17", harness=SRV, flags=["-DP=17"],
      runs=["srv:budget=5,o1=2,o2=1", "srv:budget=5,i1=1,o1=1,write=1", "srv:budget=4,faults=1,i1=1,o2=1", "srv:budget=3,faults=2,i1=1", "srv:budget=4,fin=2,i1=1,o2=1", "srv:budget=4,fin=3,i1=1", "srv:budget=3,fin=2,glue=1,i1=1", "srv:budget=3,fin=3,glue=1", "srv:budget=4,o1=3,send=1,sizes=2", "srv:budget=4,i1=2,i2=1,recv=2,write=1", "srv:budget=4,multi=1,o2=1", "srv:budget=5,o1=1,exit=2", "srv:budget=6,o1=0,i1=0,events=0x358", "srv:budget=4,fin=0,o1=1", "srv:nofork=1", "srv:budget=4,i1=2,full=1", "srv:budget=3,i1=2,fin=2,full=1", "srv:budget=3,i1=2,full=1,faults=1", "srv:budget=3,o1=8192,o2=8187", "srv:budget=3,i1=8187,i2=4,write=1,fin=2"],
      thorough=["srv:budget=6,o1=2,o2=1", "srv:budget=5,faults=1,i1=1,o2=1,write=1", "srv:budget=4,faults=2,o1=1,i1=1", "srv:budget=5,fin=2,i1=1,o2=1,write=1,recv=1", "srv:budget=5,fin=3,i1=1,o2=1", "srv:budget=8,o1=0,i1=0,events=0x358", "srv:budget=3,faults=3,i1=1"],
      covers=["completed", "signalled", "cut", "client closes", "client resets"], bounds="sessions with up to 3 bytes each way and up to 5 (thorough 6) freely chosen events: " + ALLEV + "; up to 2 (thorough 3) failures of poll, recv, send, read or wait; terminate requests and every invalid message type", assumptions=SESS)

check("C12", harness="h_request.cpp", flags=["-DP=12"],
      runs=["c12:n=1,l1=%d,start=1,split=2" % l for l in (0, 1, 2, 3, 4)] + ["c12:n=1,l1=%d,any=1,split=2" % l for l in (0, 1, 8, 9)] + ["c12:raw=%d" % k for k in range(0, 9)] + ["c12:raw=%d,split=2,splits=1,reset=1" % k for k in (4, 6, 8)]
        + ["c12:n=2,l1=%d,l2=%d,any=1,cut=1,split=2,splits=2,reset=%d" % (a, b, a % 2) for a, b in ((0, 1), (1, 2), (2, 1), (3, 2), (1, 9), (9, 1))] + ["c12:n=2,l1=7,l2=1,start=1", "c12:n=2,l1=0,l2=7,start=1,any=1", "c12:n=2,l1=1,l2=8,start=1"] + ["c12:n=2,l1=%d,l2=1,start=1" % l for l in (10, 11, 12)]
        + ["c12:n=3,l1=%d,l2=%d,l3=%d,start=1,cut=1,split=2,splits=1" % x for x in ((0, 1, 1), (2, 0, 2), (1, 3, 1))] + ["c12:n=3,l1=1,l2=1,l3=1,any=1", "c12:n=4,l1=1,l2=0,l3=2,l4=2,start=1,cut=1,splits=1,split=2"]
        + ["c12:pad=%d,n=2,l1=1,l2=1,start=1,cut=1,split=2,splits=1" % n for n in range(8175, 8193)] + ["c12:pad=%d,n=1,l1=2,start=1,cut=1,split=2,splits=1" % n for n in (8187, 16379, 65536, 70000)],
      thorough=["c12:n=3,l1=%d,l2=%d,l3=%d,any=1,cut=1,split=2,splits=2" % x for x in ((1, 1, 1), (0, 2, 2), (3, 1, 2))] + ["c12:n=4,l1=2,l2=3,l3=1,l4=1,start=1,reset=1,cut=1,split=1"] + ["c12:pad=%d,n=2,l1=2,l2=1,start=1,cut=1,split=2,splits=2" % n for n in range(8178, 8192)],
      covers=["refused", "cut", "unknown command", "message that does not belong", "first command run", "second command run"],
      bounds="streams of up to 4 messages of any type with up to 4 arbitrary payload bytes, cut after every byte, received in up to 3 short pieces (every segmentation for one message), also behind an argument that ends within 20 bytes of a receive buffer end or is up to 70000 bytes long; up to 8 wholly arbitrary bytes",
      assumptions=SYS + ["message lengths that depend on arbitrary bytes are 0..19, 255, 256 or 65537, others at most 16 MB", "a server with two commands, two more configured for another host"])
CLI = "h_client.cpp"
CLIA = SYS + ["standard input, the two output streams, the socket and poll behave as POSIX says; what a stream holds back in its buffer is written when it is flushed or closed", "after the stated number of freely chosen events the rest happens one step at a time"]
CLIEV = "standard input data and end, arrival of server data (by message, all at once, byte by byte), in every order"
check("C18", harness=CLI, flags=["-DP=18"],
      runs=["cli:m1=1,m2=4,in=2", "cli:m1=3,m2=1,m3=4,in=2,budget=4", "cli:m1=8,m2=8,m3=4,in=3,sizes=2,budget=4", "cli:m1=3,m2=8,m3=8,m4=4,in=2,budget=4", "cli:m1=8,m2=4,in=3,send=1,sizes=2,budget=5", "cli:m1=3,m2=3,m3=4,in=1", "cli:m1=4,in=3,sizes=2,budget=6",
            "cli:m1=8,m2=4,in=2,faults=1", "cli:m1=3,m2=1,m3=4,in=1,faults=1,budget=4", "cli:m1=1,m2=4,in=2,cut=1,drop=10", "cli:m1=3,in=2,cut=2", "cli:m1=6,m2=7,m3=3,m4=4,in=2,budget=4"]
        + ["cli:m1=8,m2=4,in=%d,sizes=2,budget=3,send=%d" % x for x in ((8187, 1), (8192, 0), (8188, 1), (65535, 0), (65536, 1), (131072, 0), (200000, 0))],
      thorough=["cli:m1=8,m2=8,m3=4,in=3,sizes=2,budget=6,send=1", "cli:m1=8,m2=8,m3=8,m4=4,in=3,budget=5", "cli:m1=8,m2=8,m3=4,in=2,faults=2,budget=4"],
      covers=["exits", "end of input", "input read", "waits"], bounds="standard input of up to 3 arbitrary bytes (and up to 200000 fixed ones), up to 4 server messages, up to 6 freely chosen events: " + CLIEV + "; every errno outcome of one call; thorough: 2 failures", assumptions=CLIA)
check("C19", harness=CLI, flags=["-DP=19"],
      runs=["cli:m1=1,m2=4,in=2", "cli:m1=8,m2=8,m3=4,in=1,n1=2,n2=2,recv=1,budget=4", "cli:m1=8,m2=8,m3=8,m4=4,budget=3,n1=2", "cli:m1=1,m2=6,m3=7,m4=4,n1=3,recv=2,budget=5", "cli:m1=9,m2=8,m3=4", "cli:m1=8,m2=5,m3=4", "cli:m1=5,m2=4", "cli:m1=1,m2=2,m3=4,n1=3,n2=2,recv=2,budget=5",
            "cli:m1=8,m2=4,faults=1", "cli:m1=8,m2=4,n1=3,faults=1", "cli:m1=8,m2=8,m3=4,n1=70000,n2=2,faults=1,budget=1", "cli:m1=1,m2=2,m3=4,faults=2,budget=2", "cli:m1=6,m2=1,m3=4", "cli:m1=7,m2=2,m3=4", "cli:m1=1,m2=2,cut=1,drop=10", "cli:m1=1,m2=4,cut=2,drop=10,n1=3", "cli:m1=9,m2=9,m3=8,m4=4,faults=1", "cli:m1=10", "cli:m1=8,m2=10,n2=3,budget=2"]
        + ["cli:m1=8,m2=8,m3=4,n1=%d,n2=%d,recv=2,budget=%d" % x for x in ((8187, 2, 2), (8182, 8187, 2), (8192, 1, 2), (1, 8180, 3), (16384, 3, 2), (65536, 2, 1), (70000, 8188, 1))],
      thorough=["cli:m1=8,m2=8,m3=8,m4=4,in=2,budget=4,recv=2", "cli:m1=8,m2=8,m3=8,m4=8,m5=4,budget=3,n1=2,n3=2", "cli:m1=8,m2=8,m3=8,m4=4,faults=2,budget=2", "cli:m1=8,m2=8,m3=4,n1=3,n2=3,recv=2,budget=6"],
      covers=["exits", "output", "stream closed", "bad message", "failure", "connection lost", "waits"], bounds="up to 4 (thorough 5) server messages of any kind with up to 3 arbitrary bytes (and up to 70000 fixed ones), received in arbitrary short pieces, up to 5 freely chosen events: " + CLIEV + "; up to 2 failures of output, input, connection or poll; the stream cut after every byte", assumptions=CLIA + ["the client's own error messages are not output; one written after the server ended standard error is lost"])
CHECKS["C16"].update(bounds="server: sessions with every exit code, signal and core flag, up to 5 (thorough 6) freely chosen events, up to 2 failures; client: every exit code 0..255 after up to 3 messages, the connection closed or reset after every byte, up to 2 failures", covers=CHECKS["C16"]["covers"] + ["exits", "connection lost"], assumptions=SESS + CLIA,
      parts=[dict(harness=CLI, runs=["cli:m1=4", "cli:m1=8,m2=4,in=1", "cli:m1=1,m2=4,cut=1,drop=10", "cli:m1=2,m2=4,cut=2,drop=10", "cli:m1=9,m2=9,m3=4,cut=1,drop=10,recv=2,budget=2", "cli:m1=8,m2=5,m3=4", "cli:m1=4,faults=1,in=1", "cli:m1=8,m2=4,faults=2,budget=2", "cli:m1=1,cut=1", "cli:m1=3,cut=2,in=1", "cli:m1=10,in=1", "cli:m1=8,m2=10,n2=2,budget=2"], thorough=["cli:m1=8,m2=8,m3=4,faults=2,budget=3,in=1", "cli:m1=8,m2=8,m3=8,m4=4,cut=1,drop=10,recv=1"])])
check("C23", harness=CLI, flags=["-DP=23"],
      runs=["c23:digits=0", "c23:digits=0,attempts=9,calm=1", "c23:digits=1", "c23:digits=1,sign=1", "c23:digits=1,sign=1,attempts=9,calm=1", "c23:digits=2,attempts=2", "c23:digits=2,attempts=3,calm=1", "c23:digits=3,free=1,attempts=3", "c23:digits=4,free=1,attempts=3", "c23:digits=4,free=1,attempts=9,calm=1", "c23:digits=6,free=1,attempts=3,start=3", "c23:digits=16,free=1,start=2", "c23:digits=19,top=2,attempts=2", "c23:digits=13,top=2,attempts=2", "c23:digits=13,free=1,attempts=3,start=1", "c23:digits=19,free=0,attempts=2,sign=1"],
      thorough=["c23:digits=3,attempts=2", "c23:digits=2,attempts=4", "c23:digits=4,free=1,attempts=5", "c23:digits=0,attempts=6", "c23:digits=1,sign=1,attempts=6"],
      covers=["gives up", "connected", "pause", "still trying"], bounds="timeouts of 0..19 digits (up to two of them arbitrary) and negative ones, up to 9 attempts; every clock read and every oversleep advances time by an arbitrary 32-bit number of nanoseconds (up to 4.3 s; at most 1 ms in the runs with 9 attempts), 4 start times", assumptions=SYS + ["the clock never runs backwards and a sleep is never cut short"])
E2E = "h_e2e.cpp"
E2EA = SYS + ["the server reads what the client has sent, after the request is complete", "client and server are loaded with the same configuration"]
check("C10", harness=E2E, flags=["-DP=10"],
      runs=["c10:args=%d,a1=%d,a2=%d,a3=%d,words=%d,wd=%d,name=%d" % x for x in ((0, 0, 0, 0, 0, 0, 0), (1, 3, 0, 0, 1, 1, 0), (2, 0, 4, 0, 2, 2, 1), (3, 1, 2, 3, 3, 3, 0), (3, 0, 0, 0, 0, 5, 1), (0, 0, 0, 0, 2, 6, 0))]
        + ["c10:args=2,a1=2,a2=2,send=1,recv=1,budget=4,main=%d,wd=1" % m for m in (0, 1)] + ["c10:args=4,a1=1,a2=0,a3=1,a4=12,send=1,recv=1,budget=2"]
        + ["c10:args=2,a1=%d,a2=%d,words=1,wd=2,room=10000,recv=1,send=1,budget=1" % (l, 1 + l % 3) for l in range(8150, 8200, 1)] + ["c10:args=3,a1=%d,a2=%d,a3=2,main=0,room=20000,recv=1,budget=1" % x for x in ((4090, 4090), (8192, 8187), (3, 8176), (16384, 1))]
        + ["c10:args=2,a1=%d,a2=5,room=80000,recv=1,send=1,budget=1" % l for l in (65531, 65535, 65536, 70000)] + ["c10:args=1,a1=1,wd=%d,recv=1,budget=1,main=0" % w for w in (4000,)],
      thorough=["c10:args=2,a1=%d,a2=3,room=20000,recv=1,send=1,budget=2" % l for l in list(range(8165, 8195)) + [16370, 16384, 24576]] + ["c10:args=3,a1=2,a2=2,a3=2,send=1,recv=1,budget=5", "c10:args=1,a1=1000000,room=1000000,recv=1,budget=1", "c10:args=1,a1=3,wd=8"],
      covers=["command run"], bounds="up to 4 arguments of up to 12 arbitrary bytes, and of 4090..70000 (thorough 1000000) bytes with the first and last arbitrary; working directories of up to 6 (thorough 8) arbitrary bytes below the base; up to 3 configured words; every placement of up to 4 (one for the long ones) partial sends or short receives", assumptions=E2EA + ["arguments and paths contain no NUL; the kernel reports the working directory without . and .. and empty components"])
EN = lambda name, kind, text: 1 + name * 100 + kind * 10 + text
check("C11", harness=E2E, flags=["-DP=11"],
      runs=["c11:e1=%d,extra=1,section=%d" % (EN(0, k, t), t % 2) for k in (0, 1, 2) for t in range(0, 9)]
        + ["c11:e1=%d,e2=%d" % (EN(0, k, t), EN(1, l, u)) for k, t, l, u in ((0, 2, 0, 1), (1, 2, 1, 0), (2, 3, 1, 3), (0, 5, 2, 4), (1, 0, 1, 5), (2, 0, 2, 4))]
        + ["c11:e1=%d,e2=%d" % (EN(1, k, t), EN(0, l, u)) for k, t, l, u in ((0, 1, 0, 2), (1, 0, 1, 3), (2, 1, 2, 2), (0, 0, 2, 3), (1, 1, 0, 3), (2, 0, 1, 2))]
        + ["c11:e1=%d,e2=%d" % (EN(0, k, t), EN(0, l, u)) for k in (0, 1, 2) for l in (0, 1, 2) for t, u in ((0, 0), (1, 0), (0, 4), (1, 5), (0, 1))]
        + ["c11:e1=%d,e2=%d,e3=%d,section=1" % (EN(0, 0, 1), EN(1, 1, 0), EN(2, 2, 5)), "c11:e1=%d,e2=%d,e3=%d,section=2" % (EN(1, 0, 4), EN(0, 1, 2), EN(1, 2, 2)), "c11:e1=%d,max=2" % EN(0, 0, 0), "c11:e1=%d,max=2" % EN(0, 1, 5)],
      thorough=["c11:e1=%d,e2=%d,e3=%d" % (EN(0, k, 0), EN(0, l, 4), EN(1, m, 2)) for k in (0, 1, 2) for l in (0, 1, 2) for m in (0, 1, 2)] + ["c11:e1=%d,e2=%d,max=3" % (EN(0, 0, 1), EN(0, 1, 5)), "c11:e1=%d,e2=%d,e3=%d,e4=%d" % (EN(0, 0, 0), EN(1, 1, 0), EN(2, 2, 0), EN(3, 1, 4))],
      covers=["command run", "default", "inherited", "unset", "variable sent"], bounds="up to 3 (thorough 4) entries of every kind over 4 names with 9 defaults (none, literal, references to other and to the same variable, with and without default, = and $ in it), in the section header or the command line; every listed variable unset, empty or of 1..2 (thorough 3) arbitrary bytes on the client, every variable unset, empty or of one arbitrary byte (two for the first) on the server", assumptions=E2EA + ["defaults are in single quotes, so that loading the configuration does not expand them"])
MAIN = "h_main.cpp"
M = lambda *xs: ["mainserver:" + x for x in xs]
MAINA = SYS + ["files, processes, signals, descriptors, poll, accept and the clock behave as POSIX says; the directories named exist", "the clock never runs backwards", "the server is started with standard streams open; a process is not killed by a signal before it handles signals", "host sections with different ports for one name are excluded"]
SERVES = "a configuration with up to 3 commands of the own and up to 3 of another host; "
EVENTS = "connections, interrupted calls, signals before, during and after every poll, accept and fork, in every order; "
CONNS = M("conn=2,budget=1,script=0", "conn=2,budget=1,script=1", "conn=2,budget=1,script=2", "conn=2,budget=1,script=3,dlen=2", "conn=2,budget=1,script=4", "conn=2,budget=1,script=4,execfails=1", "conn=2,budget=1,script=4,faults=1,dlen=0", "conn=2,budget=1,script=4,faults=1,execfails=1", "conn=1,budget=2,script=2,opts=1", "conn=2,budget=1,script=4,leaves=1,faults=1", "conn=2,budget=1,script=3,reset=1", "conn=1,budget=2,script=4,faults=1", "conn=1,budget=3,script=4,opts=128")
check("C13", harness=MAIN, flags=["-DP=13"],
      runs=M(*["conn=2,budget=1,script=4,dlen=%d" % d for d in (0, 1, 2, 3, 4)], "conn=2,budget=1,script=4,faults=1,dlen=2", "conn=2,budget=1,script=4,faults=1,execfails=1", "conn=2,budget=1,script=4,execfails=1,leaves=1", "conn=2,budget=1,script=4,opts=1", "conn=2,budget=1,script=4,opts=129,dlen=2", "conn=1,budget=3,script=4", "conn=1,budget=2,script=4,opts=1,faults=1", "conn=2,budget=1,script=4,opts=288,td=2,md=1", "conn=2,budget=1,script=2", "conn=2,budget=1,script=3,dlen=2,faults=1", "conn=2,budget=1,script=4,conf=1,dlen=2", "conn=2,budget=1,script=4,conf=2,dlen=2", "conn=2,budget=1,script=4,own=3,signals=1"),
      thorough=M("conn=2,budget=1,script=4,faults=2,execfails=1", "conn=2,budget=1,script=4,faults=2,opts=1,dlen=2", "conn=2,budget=1,script=4,dlen=5", "conn=1,budget=4,script=4,faults=1"),
      covers=["command starts", "command not started", "connection served", "connection fails", "exec fails"], bounds="the command's process as it comes out of the server (foreground and background), the n-th of up to 3 connections, every error of one (thorough two) of pipe, fork, dup2, chdir, exec, send or receive; client directories of up to 4 (thorough 5) characters of d . /", assumptions=MAINA)
LIM = M(*["opts=32,md=1,budget=%d%s" % x for x in ((4, ""), (4, ",accepts=1"), (5, ",calm=2"), (2, ",faults=1"), (2, ",signals=1"), (3, ",conn=1,script=2"))], "opts=32,md=1,msign=1,budget=4", "opts=32,md=2,budget=3", "opts=32,md=19,top=1,mfree=2,budget=2", "opts=32,md=4,mfree=1,budget=3", "opts=32,md=10,mfree=10,budget=2", "opts=32,md=11,mfree=11,budget=1", "opts=32,md=15,mfree=15,budget=1", "opts=33,md=1,budget=3", "opts=544,md=1,budget=3", "opts=0,accepts=1,budget=3", "opts=0,own=0,budget=2", "opts=1,budget=2,accepts=1", "opts=512,budget=2,signals=1", "opts=0,budget=3,signals=1", "opts=33,md=1,signals=1,budget=2")
TIM = M("opts=256,td=1,budget=2,accepts=1", "opts=256,td=2,budget=2", "opts=256,td=2,budget=2,signals=1", "opts=256,td=4,tfree=2,budget=3", "opts=256,td=3,tfree=1,budget=2,calm=1", "opts=256,td=5,tfree=1,budget=2,accepts=1", "opts=256,td=2,tsign=1,budget=2", "opts=288,td=2,budget=3", "opts=257,td=2,budget=2", "opts=768,td=2,budget=2", "opts=256,td=10,tfree=2,top=1,budget=2", "opts=256,td=13,tfree=2,top=1,budget=1", "opts=256,td=16,tfree=2,budget=1", "opts=256,td=19,tfree=3,top=1,budget=1", "opts=256,td=18,tfree=2,budget=1", "opts=256,td=2,faults=1,budget=1", "opts=256,td=2,budget=2,conn=1,script=2")
check("C24", harness=MAIN, flags=["-DP=24"], runs=LIM + TIM,
      thorough=M("opts=32,md=1,budget=6,accepts=1,calm=2", "opts=32,md=1,budget=5,signals=1", "opts=256,td=3,budget=4,accepts=1", "opts=256,td=2,budget=3,waits=4", "opts=288,td=2,budget=4,faults=1,signals=1", "opts=256,td=19,top=1,budget=2", "opts=32,md=3,budget=4,faults=1"),
      covers=["limit reached", "time passed", "connection arrives", "accept fails", "waits", "stopped by a signal", "connections left", "nothing to serve"], bounds="limits of 1..15 arbitrary digits and of 19 digits, 2 of them arbitrary, and negative ones; timeouts of 1..19 digits, up to 2 (for some lengths 3) of them arbitrary; up to 5 (thorough 6) events: " + EVENTS + "every temporary accept error; every clock read and every wait advances time by an arbitrary 32-bit number of nanoseconds", assumptions=MAINA + ["a connection accepted less than a millisecond after the deadline is in time", "a limit or timeout with text after the number is outside the property"])
check("C25", harness=MAIN, flags=["-DP=25"],
      runs=M(*["opts=%d,signals=%d,budget=%d%s" % x for x in ((0, 1, 2, ""), (0, 2, 2, ""), (1, 1, 2, ""), (1, 2, 1, ",launcher=1"), (256, 1, 2, ",td=2"), (256, 1, 1, ",td=19,tfree=2,top=1"), (32, 1, 3, ",md=1"), (288, 1, 2, ",td=1,md=1"), (512, 1, 2, ""), (0, 1, 2, ",accepts=1"), (0, 1, 1, ",faults=1"), (1, 1, 1, ",faults=1"), (0, 1, 1, ",debug=1"), (1, 1, 1, ",debug=1"), (256, 1, 1, ",debug=1,td=1"), (0, 1, 2, ",conn=1,script=4"), (1, 1, 1, ",conn=2,script=4"), (0, 1, 1, ",conn=2,script=4,execfails=1"), (0, 1, 1, ",conn=2,script=2"), (8, 1, 1, ",other=0"), (513, 1, 2, ""))]),
      thorough=M("opts=0,signals=3,budget=3", "opts=1,signals=2,budget=3,conn=1,script=4", "opts=288,signals=2,budget=3,td=2,md=1", "opts=0,signals=2,budget=2,faults=1,accepts=1"),
      covers=["signal", "stopped by a signal", "connection served", "command starts", "server ends"], bounds=EVENTS + "up to 2 (thorough 3) signals and 3 other events, with and without limits, timeout, background, debugging output", assumptions=MAINA)
check("C26", harness=MAIN, flags=["-DP=26"], runs=CONNS + M("conn=1,budget=3,script=1", "conn=1,budget=2,script=2,signals=1", "conn=2,budget=1,script=5,opts=8", "conn=2,budget=1,script=4,opts=68,dir=1,faults=1", "conn=1,budget=2,accepts=1,script=4", "conn=1,opts=32,md=1,budget=3,script=4", "conn=1,opts=257,td=2,budget=2,script=2", "conn=2,budget=1,script=2,opts=129,own=2,other=2"),
      thorough=M("conn=2,budget=1,script=4,faults=2,opts=1", "conn=1,budget=3,script=4,faults=1,execfails=1", "conn=1,budget=4,script=2,accepts=1"),
      covers=["connection served", "connection ends", "connection fails", "command starts", "command not started", "executables ready"], bounds="the n-th of up to 3 connections, with every request kind (none, malformed, unknown command, cut short, reset, valid), every error of one (thorough two) of its calls, a client that leaves", assumptions=MAINA)
check("C27", harness=MAIN, flags=["-DP=27"],
      runs=M("symopts=90,exist=1,budget=0,own=1,other=2", "symopts=82,own=0,other=3,exist=1,budget=0", "symopts=66,own=2,other=0,exist=1,budget=0", "opts=20,dir=0,own=3,other=3,exist=1,first=0,budget=0", "symopts=66,exist=1,faults=1,budget=0", "symopts=82,own=2,other=2,exist=1,budget=0,first=0", "symopts=19,own=1,other=2,budget=0,exist=1", "opts=80,own=2,other=2,exist=1,faults=1,budget=0", *["opts=4,dir=%d,budget=0" % d for d in range(0, 8)], "opts=5,dir=0,budget=0,exist=1", "symopts=82,dir=7,budget=0,opts=4", "symopts=80,exist=1,signals=1,budget=1", "symopts=82,exist=1,given=1,own=2,budget=0", "symopts=90,dup=1,first=0,budget=0", "symopts=90,dup=1,budget=0", "symopts=82,dup=1,own=2,other=2,exist=1,budget=0", "symopts=82,dup=1,own=2,other=2,exist=1,first=0,given=1,budget=0"),
      thorough=M("symopts=82,own=3,other=3,exist=1,faults=1,budget=0", "opts=4,symopts=80,dir=8,exist=1,budget=0", "symopts=90,own=2,other=3,exist=1,faults=2,budget=0"),
      covers=["executables ready", "existing file", "overwritten", "start or service fails", "nothing to serve"], bounds=SERVES + "every combination of disable, local, keep and overwrite; every file existing or not; every error of one (thorough two) calls; fixed and up to 2 (thorough 3) arbitrary characters of directory", assumptions=MAINA)
check("C28", harness=MAIN, flags=["-DP=28"],
      runs=M("faults=1,budget=1", "faults=2,budget=0", "opts=1,faults=1,budget=1,launcher=1", "opts=129,pid=0,signals=1,budget=1", "opts=5,budget=1,signals=1", *["opts=133,pid=%d,dir=%d,signals=1,budget=0" % (p, d) for p in (0, 1, 2) for d in (0, 1, 2, 4)], "opts=129,pid=1,signals=1,dir=1,budget=0", "opts=129,pid=3,signals=1,budget=1", "conn=1,budget=1,script=2", "exist=1,other=3,own=2,budget=0,signals=1", "symopts=90,exist=1,budget=0,signals=1", "opts=64,exist=1,budget=0,signals=1,faults=1", "opts=8,signals=1,budget=1", "opts=9,signals=1,budget=1,exist=1", "own=0,exist=1,faults=1", "own=0,other=3,opts=1", "opts=32,md=1,budget=2,faults=1", "opts=256,td=1,budget=1,faults=1", "opts=288,md=1,td=2,budget=2", "opts=133,pid=0,faults=1,budget=1,signals=1", "opts=129,exist=1,pid=0,faults=1,budget=0", "err=2", "err=4", "err=1", "conn=2,budget=1,script=4,faults=1,opts=1"),
      thorough=M("opts=133,faults=2,budget=0,signals=1,exist=1", "symopts=75,exist=1,faults=1,budget=1,signals=1", "opts=1,faults=2,budget=1,other=3", "faults=2,budget=2,signals=1"),
      covers=["executable removed", "PID file removed", "server ends", "start or service fails", "stopped by a signal", "limit reached", "time passed", "launched", "PID written"], bounds=SERVES + "every error of one or two (thorough two) calls from start to end; foreground and background with absolute and relative paths; every file existing or not; up to 2 other events", assumptions=MAINA + ["removing a file the server created fails only for reasons that end with the file left behind and a warning"])
check("C29", harness=MAIN, flags=["-DP=29"],
      runs=M(*["symopts=%d,spell=%d,place=%d,budget=1,signals=1,calm=2" % x for x in ((1023, 0, 0), (463, 1, 1), (485, 2, 1), (485, 2, 0), (463, 0, 1))], *["opts=%d,spell=3,place=2,budget=1,signals=1,calm=2,pid=0" % o for o in (1, 2, 4, 8, 16, 32, 64, 128, 129, 256, 512, 288, 133, 5, 26, 80)], *["opts=1023,over=1,budget=1,pid=1,md=1,td=2,spell=%d" % s for s in (0, 1, 2)], *["opts=%d,over=1,budget=2,pid=0,md=1,td=2,signals=1,calm=2,spell=3" % o for o in (4, 32, 129, 256)],
            *["opts=4,dir=%d,spell=3,place=2,budget=0" % d for d in (6, 7)], "err=1", "err=1,word=1", "err=2", "err=2,word=1", "err=3", "err=4", "err=4,opts=2", "err=4,opts=34,md=1", "err=4,opts=2,place=1", "err=10", "err=10,opts=1", "err=10,conf=1", *["err=5,elen=%d" % n for n in (1, 2, 3, 4)], *["err=%d,signals=1,budget=0,word=%d" % (e, w) for e in (6, 7, 8) for w in (0, 1)], "err=6,opts=1023,md=1,td=1,budget=1", "err=7,opts=1023,md=1,td=1,budget=1,place=1", "envname=1", "given=1", "given=1,envname=1,spell=3", "conf=1,spell=3", "conf=2,envconf=1,spell=3", "envconf=1", "prog=1", "prog=2,opts=32", "own=0,envname=1", "opts=33,md=1,signals=1,place=1"),
      thorough=M("symopts=1023,spell=1,place=1,budget=1,signals=1,calm=2", "symopts=1023,spell=2,place=0,budget=1,signals=1,calm=2", "opts=870,spell=3,place=2,budget=0,calm=2", "opts=309,spell=3,place=2,budget=0,calm=2,pid=0", "opts=4,dir=8,spell=3,place=2,budget=0", "err=5,elen=6"),
      covers=["executables ready", "PID written", "limit reached", "time passed", "stopped by a signal", "connections left", "start or service fails", "nothing to serve"], bounds="every subset of the ten options with each of the three spellings on the command line, every subset of six to eight in the configuration, pairs in every mix of spelling and place; directories of up to 2 (thorough 3) and unknown options of up to 4 (thorough 6) arbitrary characters", assumptions=MAINA + ["an executable directory is not empty; the ignore option only concerns arguments after it"])
check("C32", harness=MAIN, flags=["-DP=32"],
      runs=M("opts=1,launcher=1,budget=2", "opts=129,launcher=1,faults=1,budget=1", "opts=1,exist=1,budget=0", *["opts=129,pid=%d,exist=1,faults=1,budget=0,launcher=1" % p for p in (0, 1, 2)], "opts=129,pid=1,exist=1,faults=2,budget=0,launcher=1", "opts=129,faults=2,budget=0", "opts=5,dir=0,budget=1,signals=1", "opts=1,budget=1,place=1,launcher=1", "opts=385,td=2,budget=1,faults=1", "opts=129,pid=3,budget=1,faults=1,launcher=1", "opts=161,md=1,budget=2,signals=1", "opts=0,budget=1", "opts=128,budget=1", "opts=65,exist=1,budget=0", "opts=1,own=0,launcher=1", "opts=1,conn=1,script=4,budget=1", "opts=1,debug=1,budget=0,launcher=1", "opts=129,exist=1,budget=0,envname=1,launcher=1", "opts=129,exist=1,budget=0,given=1"),
      thorough=M("opts=133,pid=0,exist=1,faults=3,budget=0,launcher=1", "opts=193,exist=1,faults=2,budget=1,signals=1,other=2"),
      covers=["launched", "PID written", "existing file", "PID file removed", "start or service fails", "server ends"], bounds="both processes of the background start, every error of one or two (thorough three) calls, existing files, PID files with absolute and relative names, up to 2 events while serving", assumptions=MAINA)

INV = "h_invoke.cpp"; W = lambda *ws: ",".join("w%d=%d" % (i + 1, w) for i, w in enumerate(ws))
# words: 1 + 10 * prefix + arbitrary bytes; prefixes 0 none, 1 -c, 2 --config, 3 --config=, 4 --, 5 -h, 6 --help, 7 -v, 8 --version, 9 -, 10 a, 12 --confi, 14 ../k.conf, 15 /k.conf
OWN = [(3,), (3, 3), (3, 3, 3), (2, 3, 2), (4, 4), (5,), (43,), (44,), (47, 3), (48,), (49,), (121 + 1, 2), (121 + 2, 101), (121 + 3, 101), (31, 101), (32, 101), (33, 101, 2), (33, 3, 3), (34, 101), (11, 3, 101, 3), (21, 3, 101, 11), (11, 102, 101), (11,), (21,), (11, 1, 101), (101, 11), (101, 21, 3), (101, 31, 51, 71), (101, 33, 43, 1), (92, 3, 3), (101, 1, 1, 3), (41, 11, 3), (1, 101), (11, 141, 101, 2), (11, 151, 101, 2), (11, 151, 3, 12), (51, 101), (61, 101), (71, 3), (81, 3), (52, 3), (13, 3), (22, 3), (11, 3, 51, 101), (11, 3, 32, 101), (31, 101), (10,), (11, 3, 11, 3, 101)]
STUB = [(), (3,), (2, 3, 1), (51,), (61, 3), (71,), (81,), (11, 3), (21, 3), (32,), (33, 11), (111, 3), (131,), (43, 44), (49, 8), (3, 3, 3, 3)]
check("C30", harness=INV, flags=["-DP=30"], runs=[("c30:" + W(*w)).rstrip(":") for w in OWN] + ["c30:"] + [("c30:stub=%d,dir=%d,%s" % (1 + i % 4, i % 5, W(*w))).rstrip(",") for i, w in enumerate(STUB)] + ["c30:stub=1,%s" % W(*w) for w in STUB if w] + ["c30:stub=%d,%s" % (n, W(3, 2)) for n in range(2, 12)] + ["c30:dir=%d,%s" % (d, W(3, 101)) for d in range(1, 5)]
      + ["c30:unread=1,env=%d,%s%s" % (e, s, W(*w)) for e in (0, 2, 3, 4, 9) for s, w in (("", (101, 2)), ("stub=1,", (11, 3)), ("", (11, 3, 101)), ("", (33, 101)), ("", (3, 3)))] + ["c30:debug=1,env=2,unread=1,%s" % W(11, 2, 101, 2)],
      thorough=["c30:" + W(*w) for w in ((3, 3, 3, 3, 3), (6, 6), (10, 10), (34, 34, 34), (44, 44, 44), (3, 10, 3, 4), (12, 3, 33, 3, 3))] + ["c30:stub=%d,%s" % (n, W(10, 10, 10)) for n in (1, 9, 10, 12)],
      covers=["command run", "refused", "information", "option", "option with value", "unknown command", "unreadable"], bounds="program names (8 fixed, up to 4 arbitrary bytes) in 5 directories; up to 5 words, each of up to 8 arbitrary bytes or an option (or its beginning) followed by arbitrary bytes; configuration names from the option and the environment of up to 3 arbitrary bytes, readable or not", assumptions=SYS + ["the configuration file given is in the client's directory or one above it", "a configuration is given at most once or the last one counts", "-s and --install are decided by C29 and C31", "the environment names a configuration or nothing, not an empty name"])
check("C31", harness=INV, flags=["-DP=31"], runs=["c31:n=%d,link=%d,old=%d" % (n, l, o) for n in (0, 1, 3, 8) for l in (0, 2) for o in (0, 1, 2, 4, 6, 10)] + ["c31:n=%d,link=1,old=%d,splits=1,ops=12" % (n, o) for n in (1, 4, 5) for o in (0, 3, 8)] + ["c31:n=%d,link=2,old=%d,faults=2,splits=1" % (n, o) for n in (1, 3) for o in (0, 3, 6)] + ["c31:n=%d,link=1,old=%d,faults=%d" % (n, o, f) for n, o, f in ((3, 0, 3), (3, 5, 2), (8192, 0, 1), (8193, 9000, 2), (16385, 3, 1), (20000, 20001, 2))]
      + ["c31:n=%d,link=1,old=%d,splits=1,ops=%d" % x for x in ((8191, 8193, 3), (8192, 0, 4), (8193, 20001, 4), (16384, 16386, 3), (16385, 0, 3), (24577, 1, 3))] + ["c31:form=%d,target=%d,link=2,old=%d" % (f, t, o) for f in (0, 1, 2, 3) for t in range(0, 7) for o in (0, 5)] + ["c31:self=1,link=%d,faults=1" % l for l in (0, 1)],
      thorough=["c31:n=5,link=2,old=8,faults=2,splits=1,ops=20", "c31:n=6,link=1,splits=1,ops=30", "c31:n=5,link=1,old=3,faults=3,splits=1", "c31:n=16390,link=1,old=20000,faults=2,splits=1,ops=5", "c31:n=100000,link=1,old=200000,faults=2", "c31:n=65537,link=1,splits=1,ops=4"],
      covers=["linked", "copied", "failure reported"], bounds="programs of up to 8 arbitrary bytes and of up to 24577 (thorough 100000) bytes with three arbitrary ones; no target, or one of up to 9 arbitrary bytes or longer ones; link() works, or fails with any error; every split of reads and writes (1, half, all but one, all for more than 6 bytes), up to 3 interruptions and failures at any call; target names fixed or of up to 3 arbitrary bytes", assumptions=SYS + ["closing a file does not fail", "the running program's file cannot be opened for writing (ETXTBSY)", "link() refuses an existing target"])

check("C35", harness="h_files.cpp", flags=STR, runs=["c35:len=%d,splits=%d" % (n, s) for n in range(0, 9) for s in (0, 1) if n > 1 or not s] + ["c35:len=%d,splits=1,faults=%d" % (n, f) for n in (0, 1, 4, 6) for f in (1, 2)] + ["c35:len=%d,kind=%d" % (n, k) for n in (0, 3) for k in (1, 2, 3)] + ["c35:len=%d,kind=4,more=%d,splits=1" % (n, m) for n in (0, 1, 4) for m in (1, 5, 5000)] + ["c35:len=40"],
      thorough=["c35:len=12,splits=1", "c35:len=10,splits=1,faults=2", "c35:len=60"], covers=["read", "empty", "absent", "error"], bounds="files of up to 8 (thorough 12) arbitrary bytes (NUL included) in every split of the reads, files of 40 bytes; every error of opening; up to 2 failing or early ending reads; files that cannot be positioned, directories, files shorter than their size", assumptions=["the file does not grow while it is read"])
NS = (0, 1, 5, 255, 2048, 4094, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16384, 20000)
check("C36", harness="h_files.cpp", flags=STR, runs=["c36:kind=%d,n0=%d" % (k, n) for k in (0, 1, 2) for n in NS if n or k == 2] + ["c36:kind=3,n0=%d" % n for n in (1, 5, 4095)] + ["c36:kind=%d,rounds=3,n0=%d,n1=%d,n2=%d" % ((k,) + x) for k in (0, 1, 2) for x in ((4096, 4096, 5), (5000, 4999, 5000), (8192, 8192, 8193), (9000, 10, 4096), (3, 20000, 3), (4095, 4096, 4097))] + ["c36:kind=%d,rounds=2,n0=%d,n1=9,failing=%d" % (k, n, f) for k in (0, 1, 2, 3) for f in (0, 1) for n in (7, 4000)] + ["c36:kind=%d,rounds=2,n0=9000,n1=9000,failing=1" % k for k in (0, 1, 2)],
      thorough=["c36:kind=%d,rounds=3,n0=%d,n1=%d,n2=%d" % (k, a, b, c) for k in (0, 1, 2) for a in (100, 4096, 8200) for b in (4095, 8192, 16385) for c in (1, 8191, 40000)], covers=["short", "long", "unknown"], bounds="names of 15 lengths from 0 to 20000 (thorough 40000) around the buffer's size and its doublings, with three arbitrary bytes, asked for up to three times in a row; every failure", assumptions=["readlink() fills the buffer without a terminator, getcwd() fails with ERANGE and gethostname() with ENAMETOOLONG when the buffer is too short"])

SES = lambda *xs: ["session:" + x for x in xs]
check("C37", harness="h_session.cpp", flags=["-DP=37"],
      runs=SES(*["script=0xb1,budget=%d" % b for b in (1, 2, 3)], "script=0xb9871,in=2,budget=2", "script=0xb,in=1,budget=3", "script=0xbdd,in=2,budget=2", "script=0xbddd,in=2,budget=1", "script=0xba,in=5,pipe=2,c2s=16,s2c=32,budget=2", "script=0xb721,in=2,open=1,budget=2", "script=0xc21,in=1,budget=2", "script=0xb551,in=2,open=1,budget=1", "script=0x112e1,budget=2", "script=0x21e51,in=2,budget=1", "script=0x31e,burst=10,budget=2", "script=0x12e8,budget=2", "script=0x212e,budget=2", "script=0x1221e,budget=2,eager=1", "script=0xbdd,in=1,budget=3,eager=1", "script=0xbd2d1,budget=2,eager=1", "script=0xbddd,in=1,budget=2,eager=1", "script=0xb19,budget=2,eager=1", "script=0x21e,in=2,open=1,budget=2,kill=1", "script=0x11e,budget=2,kill=2",
               "script=0xb43,burst=20,pipe=4,s2c=56,budget=2,eager=1", "script=0xb43,burst=40,pipe=4,s2c=56,budget=2,eager=1", "script=0xba3,burst=40,in=12,pipe=4,s2c=20,c2s=34,budget=2,eager=1", "script=0xba43,burst=12,in=12,pipe=4,s2c=40,c2s=34,budget=2,eager=1", "script=0xb5,in=10,open=1,pipe=2,c2s=12,budget=2", "script=0xb75,in=10,pipe=2,c2s=12,budget=2",
               *[x + ",kill=%d" % k for k in (1, 2) for x in ("script=0xb51,in=1,budget=2", "script=0xb3,burst=24,pipe=4,s2c=24,budget=1", "script=0xb66,in=12,pipe=2,c2s=16,budget=1", "script=0xb5a1,in=2,budget=1", "script=0xb721,in=2,open=1,budget=1", "script=0xc21,in=1,budget=1")]),
      thorough=SES("script=0xbdd,in=2,budget=3", "script=0xbdddd,in=1,budget=1", "script=0xb43,burst=40,pipe=4,s2c=56,budget=3,eager=1", "script=0xba,in=5,pipe=2,c2s=16,s2c=32,budget=3", "script=0xba3,burst=30,in=30,chunk=8,pipe=4,c2s=26,s2c=20,budget=1,eager=1", *["script=0xbdd,in=2,budget=1,kill=%d" % k for k in (1, 2)]),
      covers=["completed", "abnormal end", "client killed", "server killed", "terminated", "connection full", "command closes its input", "end of input", "input received", "output", "waits for the user", "outlived"],
      bounds="the client's and the server's complete loops joined by one connection, as alternating threads; commands of up to 4 (thorough 5) steps: writing one arbitrary byte or a burst of up to 40 bytes to either output, reading one block, reading to the end, copying its input to its output, closing any of its streams, exiting with every code (with or without leaving a process behind that goes on using its outputs) or dying of every signal, in the fixed sequences listed and every sequence of up to 3 of the short steps; up to 12 (thorough 30) bytes of input, arriving in pieces, ending or staying open; connections of 12..64 bytes in each direction, pipes of 2..4; the next party to move chosen freely up to 2 (3 for the shortest sessions and thorough) times at any call that others can observe and at every wait, otherwise by a fixed rule; client or server killed before any call", assumptions=SYS + ["a process runs until it waits or a free choice interrupts it", "each direction's socket buffers hold at least two messages to the server and the messages that the server sends between two looks at the connection (the real ones hold dozens of 64 KB messages)", "the command ends itself or when signalled"])
