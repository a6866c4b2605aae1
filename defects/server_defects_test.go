package server

import (
	"bufio"
	"encoding/binary"
	"io"
	"net"
	"strings"
	"testing"
	"time"

	merrors "go.f110.dev/go-memcached/errors"
)

type fn func(*Request) ([]*Response, error)

func (f fn) ServeRequest(r *Request) ([]*Response, error) { return f(r) }

func sv(t *testing.T, h fn) net.Conn {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	go (&Server{Handler: h}).Serve(l)
	c, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	c.SetDeadline(time.Now().Add(300 * time.Millisecond))
	t.Cleanup(func() { c.Close(); l.Close() })
	return c
}
func req(op byte, extra, key, val string, fix ...func([]byte)) string {
	h := make([]byte, 24)
	h[0], h[1] = 0x80, op
	binary.BigEndian.PutUint16(h[2:], uint16(len(key)))
	h[4] = byte(len(extra))
	binary.BigEndian.PutUint32(h[8:], uint32(len(extra)+len(key)+len(val)))
	for _, f := range fix {
		f(h)
	}
	return string(h) + extra + key + val
}

// handle runs the connection in this goroutine so that a panic can be observed.
func handle(t *testing.T, in string, h fn) (out string) {
	a, b := net.Pipe()
	done := make(chan string)
	go func() {
		o, _ := io.ReadAll(a)
		done <- string(o)
	}()
	go func() { io.WriteString(a, in); time.Sleep(50 * time.Millisecond); b.Close() }()
	func() {
		defer func() {
			if r := recover(); r != nil {
				t.Errorf("request %q: panic: %v", in, r)
			}
		}()
		(&Server{Handler: h}).serve(newConn(b))
	}()
	b.Close()
	out = <-done
	a.Close()
	return out
}

func TestDefect_Crash(t *testing.T) { // S01
	ok := fn(func(*Request) ([]*Response, error) { return []*Response{{}}, nil })
	none := fn(func(*Request) ([]*Response, error) { return nil, nil })
	handle(t, "set k 0 0 -5\r\n", ok)
	handle(t, "ms k 2  T0\r\nab\r\n", ok)
	handle(t, "ms k 2 S-9\r\nab\r\n", ok)
	handle(t, req(1, "ab", "k", "v"), ok)
	handle(t, req(5, "ab", "k", ""), ok)
	handle(t, req(0x1c, "ab", "k", ""), ok)
	handle(t, req(1, "abcdefgh", "k", "", func(h []byte) { h[11] = 1 }), ok)
	handle(t, "delete k\r\n", none)
	handle(t, req(4, "", "k", ""), none)
	handle(t, "get k\r\n", fn(func(*Request) ([]*Response, error) { return []*Response{{Flags: []byte{1}}}, nil }))
}

func TestDefect_BinaryBodyNotConsumed(t *testing.T) { // S02
	n := 0
	h := fn(func(*Request) ([]*Response, error) { n++; return []*Response{{}}, nil })
	handle(t, req(0, "", "k", req(8, "", "", "")), h)
	if n > 1 {
		t.Error("the body of a get was executed as a flush")
	}
}

func TestDefect_Parse(t *testing.T) { // S03
	var got *Request
	h := fn(func(r *Request) ([]*Response, error) { got = r; return []*Response{{}}, nil })
	try := func(in string, ok func() bool) {
		got = nil
		handle(t, in, h)
		if !ok() {
			t.Errorf("%q: %+v", in, got)
		}
	}
	try("get k\n", func() bool { return got != nil && got.Key == "k" })
	try("gets\r\n", func() bool { return got == nil })
	try("set k 4294967295 0 1\r\nv\r\n", func() bool { return got != nil && string(got.Flags) == "\xff\xff\xff\xff" })
	try("ms k 1 F4294967295\r\nv\r\n", func() bool { return got != nil && uint32(got.SetOpt.Flag) == 0xffffffff })
	try("incr k 5000000000\r\n", func() bool { return got != nil && got.Delta == 5000000000 })
	try(req(1, "abcdefgh", "k", "v", func(h []byte) { h[23] = 7 }), func() bool { return got != nil && got.SetOpt.CasValue == 7 })
}

func TestDefect_ErrorReplies(t *testing.T) { // S04, S05
	fail := func(e error) fn { return func(*Request) ([]*Response, error) { return []*Response{{Error: e}}, nil } }
	want := func(in, out string, e error) {
		t.Helper()
		if o := handle(t, in, fail(e)); !strings.HasPrefix(o, out) || o == "" {
			t.Errorf("%q: reply %q, want %q", in, o, out)
		}
	}
	want("get k\r\n", "END\r\n", merrors.ItemNotFound)
	want("mg k v\r\n", "EN\r\n", merrors.ItemNotFound)
	want("set k 0 0 1\r\nv\r\n", "EXISTS\r\n", merrors.ItemExists)
	want("add k 0 0 1\r\nv\r\n", "NOT_STORED\r\n", merrors.ItemExists)
	want("replace k 0 0 1\r\nv\r\n", "NOT_STORED\r\n", merrors.ItemNotFound)
	want("ms k 1\r\nv\r\n", "EX", merrors.ItemExists)
	want("delete k\r\n", "NOT_FOUND\r\n", merrors.ItemNotFound)
	want("incr k 1\r\n", "NOT_FOUND\r\n", merrors.ItemNotFound)
	want("touch k 1\r\n", "NOT_FOUND\r\n", merrors.ItemNotFound)
	want("version\r\n", "SERVER_ERROR", &merrors.MemcachedError{Status: 0x82, Message: "x"})
	want(req(0, "", "k", ""), "\x81\x00\x00\x00\x00\x00\x00\x01", merrors.ItemNotFound)
	want(req(4, "", "k", ""), "\x81\x04\x00\x00\x00\x00\x00\x01", merrors.ItemNotFound)
	if o := handle(t, req(0, "", "k", ""), func(*Request) ([]*Response, error) { return nil, nil }); o == "" {
		t.Error("a binary get without result is not answered")
	}
}

func TestDefect_MetaGetWithoutValue(t *testing.T) { // S06
	c := sv(t, func(*Request) ([]*Response, error) { return []*Response{{Value: []byte("hello"), TTL: 3}}, nil })
	io.WriteString(c, "mg k t\r\nversion\r\n")
	r := bufio.NewReader(c)
	l, _ := r.ReadString('\n')
	if strings.HasPrefix(l, "VA 5") {
		t.Errorf("%q announces a value that is not sent", l)
	}
}
