#!/usr/bin/env python3
"""Generate the -overlay that lets the harness substitute an in-memory UDP
network for net.UDPConn, from the installed GOROOT's own source files.

usage: mkoverlay.py OUTDIR   (writes OUTDIR/overlay.json and patched files)
"""
import json, os, re, subprocess, sys

def die(msg):
    print("mkoverlay: " + msg, file=sys.stderr)
    sys.exit(2)

out = os.path.abspath(sys.argv[1])
os.makedirs(out, exist_ok=True)
goroot = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
net = os.path.join(goroot, "src", "net")

HOOK = '''package net

import (
	"errors"
	"syscall"
	"time"
)

// VerifUDP is an in-memory datagram socket substituted by a test harness.
type VerifUDP interface {
	ReadFrom(p []byte) (n int, from [4]byte, port int, err error)
	WriteTo(p []byte, to [4]byte, port int) (int, error)
	Close() error
	SetDeadline(read, write bool, t time.Time) error
}

// VerifListen, when set, supplies every UDP listening socket.
var VerifListen func(network string, laddr *UDPAddr) (VerifUDP, *UDPAddr, error)

func verifListenUDP(network string, laddr *UDPAddr) (*UDPConn, error) {
	v, la, err := VerifListen(network, laddr)
	if err != nil {
		return nil, err
	}
	fd := &netFD{family: syscall.AF_INET, sotype: syscall.SOCK_DGRAM, net: network, laddr: la, verif: v}
	return newUDPConn(fd), nil
}

func (fd *netFD) verifWriteSA(p []byte, sa syscall.Sockaddr) (int, error) {
	switch sa := sa.(type) {
	case *syscall.SockaddrInet4:
		return fd.verif.WriteTo(p, sa.Addr, sa.Port)
	case *syscall.SockaddrInet6:
		var a [4]byte
		copy(a[:], sa.Addr[12:])
		return fd.verif.WriteTo(p, a, sa.Port)
	}
	return 0, errors.New("verif: unsupported address")
}
'''

src = open(os.path.join(net, "fd_posix.go")).read()
n0 = src
src = src.replace("\tpfd poll.FD\n", "\tpfd poll.FD\n\tverif VerifUDP\n", 1)

BODY = {
 "Close() error": "\t\treturn fd.verif.Close()",
 "shutdown(how int) error": "\t\treturn nil",
 "Read(p []byte) (n int, err error)": "\t\tn, _, _, err = fd.verif.ReadFrom(p)\n\t\treturn n, err",
 "readFrom(p []byte) (n int, sa syscall.Sockaddr, err error)":
   "\t\tn, a, port, err := fd.verif.ReadFrom(p)\n\t\tif err != nil {\n\t\t\treturn n, nil, err\n\t\t}\n\t\treturn n, &syscall.SockaddrInet4{Addr: a, Port: port}, nil",
 "readFromInet4(p []byte, from *syscall.SockaddrInet4) (n int, err error)":
   "\t\tn, from.Addr, from.Port, err = fd.verif.ReadFrom(p)\n\t\treturn n, err",
 "readMsg(p []byte, oob []byte, flags int) (n, oobn, retflags int, sa syscall.Sockaddr, err error)":
   "\t\tn, a, port, err := fd.verif.ReadFrom(p)\n\t\tif err != nil {\n\t\t\treturn n, 0, 0, nil, err\n\t\t}\n\t\treturn n, 0, 0, &syscall.SockaddrInet4{Addr: a, Port: port}, nil",
 "readMsgInet4(p []byte, oob []byte, flags int, sa *syscall.SockaddrInet4) (n, oobn, retflags int, err error)":
   "\t\tn, sa.Addr, sa.Port, err = fd.verif.ReadFrom(p)\n\t\treturn n, 0, 0, err",
 "writeTo(p []byte, sa syscall.Sockaddr) (n int, err error)": "\t\treturn fd.verifWriteSA(p, sa)",
 "writeToInet4(p []byte, sa *syscall.SockaddrInet4) (n int, err error)": "\t\treturn fd.verifWriteSA(p, sa)",
 "writeToInet6(p []byte, sa *syscall.SockaddrInet6) (n int, err error)": "\t\treturn fd.verifWriteSA(p, sa)",
 "writeMsg(p []byte, oob []byte, sa syscall.Sockaddr) (n int, oobn int, err error)": "\t\tn, err = fd.verifWriteSA(p, sa)\n\t\treturn n, 0, err",
 "writeMsgInet4(p []byte, oob []byte, sa *syscall.SockaddrInet4) (n int, oobn int, err error)": "\t\tn, err = fd.verifWriteSA(p, sa)\n\t\treturn n, 0, err",
 "SetDeadline(t time.Time) error": "\t\treturn fd.verif.SetDeadline(true, true, t)",
 "SetReadDeadline(t time.Time) error": "\t\treturn fd.verif.SetDeadline(true, false, t)",
 "SetWriteDeadline(t time.Time) error": "\t\treturn fd.verif.SetDeadline(false, true, t)",
}
for sig, body in BODY.items():
    head = "func (fd *netFD) " + sig + " {\n"
    if src.count(head) != 1:
        die("cannot find net.netFD method: " + sig)
    src = src.replace(head, head + "\tif fd.verif != nil {\n" + body + "\n\t}\n", 1)
if "\tverif VerifUDP\n" not in src:
    die("cannot patch netFD")

udp = open(os.path.join(net, "udpsock_posix.go")).read()
head = "func (sl *sysListener) listenUDP(ctx context.Context, laddr *UDPAddr) (*UDPConn, error) {\n"
if udp.count(head) != 1:
    die("cannot find listenUDP")
udp = udp.replace(head, head + "\tif VerifListen != nil {\n\t\treturn verifListenUDP(sl.network, laddr)\n\t}\n", 1)

rep = {}
def put(name, text):
    p = os.path.join(out, name)
    with open(p, "w") as f:
        f.write(text)
    rep[os.path.join(net, name)] = p
put("fd_posix.go", src)
put("udpsock_posix.go", udp)
put("verif_hook.go", HOOK)

# newUDPConn sets write-buffer options on the descriptor in some releases
sock = open(os.path.join(net, "udpsock.go")).read()
m = re.search(r"func newUDPConn\(fd \*netFD\) \*UDPConn \{[^\n]*\n?", sock)
if not m:
    die("cannot find newUDPConn")
with open(os.path.join(out, "overlay.json"), "w") as f:
    json.dump({"Replace": rep}, f, indent=1)
