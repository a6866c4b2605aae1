package client

// Demonstrations of the genuine defects found in the client package. Each test
// fails on the pinned commit and passes on the repaired tree. They are records
// of what was found (see DESIGN.md), not part of any check.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	merrors "go.f110.dev/go-memcached/errors"
	"go.f110.dev/go-memcached/testutil"
)

// script starts a server that answers the n-th read on a connection with the n-th reply.
func script(t *testing.T, replies ...string) (string, *bytes.Buffer) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { l.Close() })
	got := new(bytes.Buffer)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			buf := make([]byte, 65536)
			for _, r := range replies {
				n, err := c.Read(buf)
				if err != nil {
					break
				}
				got.Write(buf[:n])
				io.WriteString(c, r)
			}
			c.Read(buf)
		}
	}()
	return l.Addr().String(), got
}

func text(t *testing.T, a string, o ...ServerOpt) *ServerWithTextProtocol {
	s, err := NewServerWithTextProtocol(context.Background(), "x", "tcp", a, o...)
	if err != nil {
		t.Fatal(err)
	}
	return s
}
func meta(t *testing.T, a string, o ...ServerOpt) *ServerWithMetaProtocol {
	s, err := NewServerWithMetaProtocol(context.Background(), "x", "tcp", a, o...)
	if err != nil {
		t.Fatal(err)
	}
	return s
}
func bin(t *testing.T, a string, o ...ServerOpt) *ServerWithBinaryProtocol {
	s, err := NewServerWithBinaryProtocol(context.Background(), "x", "tcp", a, o...)
	if err != nil {
		t.Fatal(err)
	}
	return s
}
func real(t *testing.T) string {
	p := testutil.NewMemcachedProcess(t, nil)
	t.Cleanup(func() { p.Stop(t) })
	return fmt.Sprintf("127.0.0.1:%d", p.Port)
}
func packet(op byte, status uint16, extra, key, body string) string {
	h := make([]byte, 24)
	h[0], h[1] = 0x81, op
	binary.BigEndian.PutUint16(h[2:], uint16(len(key)))
	h[4] = byte(len(extra))
	binary.BigEndian.PutUint16(h[6:], status)
	binary.BigEndian.PutUint32(h[8:], uint32(len(extra)+len(key)+len(body)))
	return string(h) + extra + key + body
}
func nopanic(t *testing.T, f func()) {
	t.Helper()
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("panic: %v", r)
		}
	}()
	f()
}

func TestDefect_SetClobbersCallerMemory(t *testing.T) { // C08
	for _, s := range []Server{text(t, real(t)), meta(t, real(t))} {
		b := []byte("valueNEXT")
		if err := s.Set(&Item{Key: "k", Value: b[:5]}); err != nil {
			t.Fatal(err)
		}
		if string(b) != "valueNEXT" {
			t.Errorf("%T: caller's buffer is now %q", s, b)
		}
	}
}

func TestDefect_MetaGetMultiMiss(t *testing.T) { // C12, C04
	s := meta(t, real(t))
	s.Set(&Item{Key: "b", Value: []byte("B")})
	items, err := s.GetMulti("a", "b")
	if err != nil || len(items) != 1 {
		t.Errorf("got %d items, %v", len(items), err)
	}
	if _, err := s.Get("zzz"); err != merrors.ItemNotFound {
		t.Errorf("next command sees %v", err)
	}
}

func TestDefect_BinaryErrorBody(t *testing.T) { // C04
	a := real(t)
	check := func(name string, s Server) {
		s.(*ServerWithBinaryProtocol).Timeout = time.Second
		if it, err := s.Get("k"); err != nil || string(it.Value) != "v" {
			t.Errorf("after %s: %v", name, err)
		}
	}
	s := bin(t, a)
	s.Set(&Item{Key: "k", Value: []byte("v")})
	s.Add(&Item{Key: "k", Value: []byte("w")})
	check("Add", s)
	s = bin(t, a)
	s.Set(&Item{Key: "k", Value: []byte("w"), Cas: 999999})
	check("Set", s)
	s = bin(t, a)
	s.Touch("missing", 1)
	check("Touch", s)
}

func TestDefect_BinaryGetMultiErrorBody(t *testing.T) { // C04
	a, _ := script(t, packet(0x0d, 0x82, "", "", "out of memory")+packet(0x0a, 0, "", "", ""), packet(0, 0, "\x00\x00\x00\x00", "", "v"))
	s := bin(t, a)
	if _, err := s.GetMulti("k"); err == nil {
		t.Error("no error")
	}
	if it, err := s.Get("k"); err != nil || string(it.Value) != "v" {
		t.Errorf("after GetMulti: %v", err)
	}
}

func TestDefect_BinaryFlushStatus(t *testing.T) { // C05, C04
	a, _ := script(t, packet(8, 0x82, "", "", "out of memory"), packet(0x0b, 0, "", "", "1.0"))
	s := bin(t, a)
	if err := s.Flush(); err == nil {
		t.Error("failed flush is reported as success")
	}
	if v, err := s.Version(); err != nil || v != "1.0" {
		t.Errorf("next command: %q %v", v, err)
	}
}

func TestDefect_BinaryVersionErrorBody(t *testing.T) { // C04
	a, _ := script(t, packet(0x0b, 0x82, "", "", "out of memory"), packet(0x0b, 0, "", "", "1.0"))
	s := bin(t, a)
	s.Version()
	if v, err := s.Version(); err != nil || v != "1.0" {
		t.Errorf("next command: %q %v", v, err)
	}
}

func TestDefect_IncrementStaleHeader(t *testing.T) { // C10
	s := bin(t, real(t))
	failed := false
	for i := 0; i < 50; i++ { // the pool may drop an object now and then
		s.Set(&Item{Key: "n", Value: []byte("1")})
		it, _ := s.Get("n")
		s.Set(&Item{Key: "n", Value: []byte("1"), Cas: it.Cas})
		if _, err := s.Increment("n", 1, 0); err != nil {
			failed = true
		}
	}
	if failed {
		t.Error("Increment is sent with the CAS of an earlier Set")
	}
}

func TestDefect_TextUnknownReplyIsSuccess(t *testing.T) { // C05
	a, _ := script(t, "SERVER_ERROR out of memory\r\n", "SERVER_ERROR out of memory\r\n", "ERROR\r\n")
	s := text(t, a)
	if s.Delete("k") == nil {
		t.Error("Delete")
	}
	if s.Touch("k", 1) == nil {
		t.Error("Touch")
	}
	if v, err := s.Version(); err == nil {
		t.Errorf("Version is %q", v)
	}
	a, _ = script(t, "ERROR\r\n")
	if v, err := meta(t, a).Version(); err == nil {
		t.Errorf("meta Version is %q", v)
	}
}

func TestDefect_TextErrorReportedAsStatus(t *testing.T) { // C06
	for _, mk := range []func(string) Server{func(a string) Server { return text(t, a) }, func(a string) Server { return meta(t, a) }} {
		a, _ := script(t, "SERVER_ERROR out of memory\r\n", "SERVER_ERROR out of memory\r\n")
		s := mk(a)
		if err := s.Add(&Item{Key: "k"}); err == nil || err == merrors.ItemExists {
			t.Errorf("%T Add: %v", s, err)
		}
		if err := s.Replace(&Item{Key: "k"}); err == nil || err == merrors.ItemNotFound {
			t.Errorf("%T Replace: %v", s, err)
		}
	}
}

func TestDefect_NotFoundMapping(t *testing.T) { // C06
	a := real(t)
	for _, s := range []Server{text(t, a), meta(t, a), bin(t, a)} {
		if err := s.Touch("missing", 10); err != merrors.ItemNotFound {
			t.Errorf("%T Touch: %v", s, err)
		}
		s.Reconnect()
		if err := s.Set(&Item{Key: "missing", Cas: 12345}); err != merrors.ItemNotFound {
			t.Errorf("%T Set: %v", s, err)
		}
	}
	if _, err := bin(t, a).Increment("missing", 1, -1); err != merrors.ItemNotFound {
		t.Errorf("Increment: %v", err)
	}
	a, _ = script(t, "EX\r\n")
	if err := meta(t, a).Delete("k"); err != merrors.ItemExists {
		t.Errorf("meta Delete on EX: %v", err)
	}
}

func TestDefect_FlagsAndCasRange(t *testing.T) { // C11
	a := real(t)
	f := []byte{0xde, 0xad, 0xbe, 0xef}
	s := meta(t, a)
	if err := s.Set(&Item{Key: "k", Value: []byte("v"), Flags: f}); err != nil {
		t.Fatal(err)
	}
	if it, err := s.Get("k"); err != nil || !bytes.Equal(it.Flags, f) {
		t.Errorf("meta Get: %v", err)
	}
	a, _ = script(t, "VA 1 f0 c18446744073709551615 t-1\r\nv\r\n")
	if it, err := meta(t, a).Get("k"); err != nil || it.Cas != 1<<64-1 {
		t.Errorf("meta CAS: %v", err)
	}
}

func TestDefect_GetMultiCas(t *testing.T) { // C11
	a := real(t)
	for _, s := range []Server{text(t, a), meta(t, a), bin(t, a)} {
		s.Set(&Item{Key: "k", Value: []byte("v")})
		it, _ := s.Get("k")
		its, err := s.GetMulti("k")
		if err != nil || its[0].Cas != it.Cas || it.Cas == 0 {
			t.Errorf("%T: Get has CAS %d, GetMulti %d", s, it.Cas, its[0].Cas)
		}
	}
}

func TestDefect_NeverExpires(t *testing.T) { // C11
	s := meta(t, real(t))
	s.Set(&Item{Key: "k", Value: []byte("v")})
	it, _ := s.Get("k")
	if it.Expiration != 0 {
		t.Errorf("expiration %d", it.Expiration)
	}
	s.Set(it)
	if _, err := s.Get("k"); err != nil {
		t.Errorf("storing the item again makes it expire: %v", err)
	}
}

func TestDefect_ReuseAfterTimeout(t *testing.T) { // C13
	for _, mk := range []func(string) Server{
		func(a string) Server { s := text(t, a); s.Timeout = 200 * time.Millisecond; return s },
		func(a string) Server { s := meta(t, a); s.Timeout = 200 * time.Millisecond; return s },
	} {
		l, _ := net.Listen("tcp", "127.0.0.1:0")
		go func() {
			c, _ := l.Accept()
			r := bufio.NewReader(c)
			line, _ := r.ReadString('\n')
			time.Sleep(300 * time.Millisecond)
			if strings.HasPrefix(line, "mg") {
				io.WriteString(c, "VA 1\r\nA\r\n")
			} else {
				io.WriteString(c, "VALUE a 0 1\r\nA\r\nEND\r\n")
			}
			r.ReadString('\n')
		}()
		s := mk(l.Addr().String())
		if _, err := s.Get("a"); err == nil {
			t.Fatal("no timeout")
		}
		time.Sleep(200 * time.Millisecond)
		if it, err := s.Get("b"); err == nil {
			t.Errorf("%T: Get(b) is answered with the value of a: %q", s, it.Value)
		}
		l.Close()
	}
}

func TestDefect_HeartbeatProbesOnce(t *testing.T) { // C14
	var n int32
	l, _ := net.Listen("tcp", "127.0.0.1:0")
	go func() {
		c, _ := l.Accept()
		r := bufio.NewReader(c)
		for {
			if _, err := r.ReadString('\n'); err != nil {
				return
			}
			atomic.AddInt32(&n, 1)
			io.WriteString(c, "VERSION 1\r\n")
		}
	}()
	s := text(t, l.Addr().String(), func(o *ServerOption) { o.HeartbeatInterval = 50 * time.Millisecond })
	time.Sleep(500 * time.Millisecond)
	if atomic.LoadInt32(&n) < 3 {
		t.Errorf("%d probes", n)
	}
	s.Close()
}

func TestDefect_HeartbeatOutlivesClose(t *testing.T) { // C14
	a := real(t)
	count := func() int {
		buf := make([]byte, 1<<20)
		return strings.Count(string(buf[:runtime.Stack(buf, true)]), "client.heartbeat")
	}
	hb := func(o *ServerOption) { o.HeartbeatInterval = time.Hour }
	m, b := meta(t, a, hb), bin(t, a, hb)
	m.Close()
	b.Close()
	time.Sleep(100 * time.Millisecond)
	if n := count(); n != 0 {
		t.Errorf("%d heartbeats are still running", n)
	}
}

func TestDefect_HeartbeatGivesUp(t *testing.T) { // C14, C15
	p := testutil.NewMemcachedProcess(t, nil)
	s := text(t, fmt.Sprintf("127.0.0.1:%d", p.Port), EnableAutoReconnect, func(o *ServerOption) { o.HeartbeatInterval = 100 * time.Millisecond })
	p.Stop(t)
	time.Sleep(500 * time.Millisecond)
	l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p.Port))
	if err != nil {
		t.Skip(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			r := bufio.NewReader(c)
			for {
				if _, err := r.ReadString('\n'); err != nil {
					break
				}
				io.WriteString(c, "VERSION 1\r\n")
			}
		}
	}()
	time.Sleep(500 * time.Millisecond)
	if _, err := s.Version(); err != nil {
		t.Errorf("not reconnected: %v", err)
	}
	l.Close()
}

func TestDefect_ReconnectAfterFailedReconnect(t *testing.T) { // C15
	p := testutil.NewMemcachedProcess(t, nil)
	a := fmt.Sprintf("127.0.0.1:%d", p.Port)
	ss := []Server{text(t, a), meta(t, a), bin(t, a)}
	p.Stop(t)
	for _, s := range ss {
		if s.Reconnect() == nil {
			t.Fatal("reconnected to nothing")
		}
	}
	l, err := net.Listen("tcp", a)
	if err != nil {
		t.Skip(err)
	}
	defer l.Close()
	for _, s := range ss {
		if err := s.Reconnect(); err != nil {
			t.Errorf("%T: %v", s, err)
		}
	}
}

func TestDefect_MalformedReplies(t *testing.T) { // C16
	for _, r := range []string{"VALUE k 0 -5\r\n", "VALUE k 0 9223372036854775807\r\n", "VALUE\r\n", "VALUE k\r\n", "VALUE k 0 \n", "VALUE k 0 -5 1\r\n", "VALUE k 0 9223372036854775807 1\r\n", "\n"} {
		for i := 0; i < 4; i++ {
			a, _ := script(t, r)
			s := text(t, a)
			s.Timeout = 50 * time.Millisecond
			nopanic(t, func() {
				switch i {
				case 0:
					s.Get("k")
				case 1:
					s.GetMulti("k")
				case 2:
					s.Increment("k", 1, 0)
				case 3:
					s.Flush()
				}
			})
		}
	}
	for _, r := range []string{"VA -5\r\n", "VA -5 f\r\n", "\n"} {
		for i := 0; i < 3; i++ {
			a, _ := script(t, r)
			s := meta(t, a)
			s.Timeout = 50 * time.Millisecond
			nopanic(t, func() {
				switch i {
				case 0:
					s.Get("k")
				case 1:
					s.Increment("k", 1, 0)
				case 2:
					s.Flush()
				}
			})
		}
	}
	bad := []byte(packet(0, 0, "", "", "v"))
	bad[4] = 200
	big := []byte(packet(0x0d, 0, "abcd", "", strings.Repeat("x", 70000)))
	big[2], big[3] = 0xff, 0xff
	for _, r := range []string{string(bad), string(big), packet(5, 0, "", "", "1")} {
		for i := 0; i < 3; i++ {
			a, _ := script(t, r)
			s := bin(t, a)
			s.Timeout = 50 * time.Millisecond
			nopanic(t, func() {
				switch i {
				case 0:
					s.Get("k")
				case 1:
					s.GetMulti("k")
				case 2:
					s.Increment("k", 1, 0)
				}
			})
		}
	}
}

func TestDefect_ShortFlags(t *testing.T) { // C16
	a := real(t)
	for _, s := range []Server{text(t, a), meta(t, a), bin(t, a)} {
		nopanic(t, func() { s.Set(&Item{Key: "k", Flags: []byte{1}}) })
	}
}

func TestDefect_KeyInjection(t *testing.T) { // C17
	a := real(t)
	for _, s := range []Server{text(t, a), meta(t, a)} {
		s.Set(&Item{Key: "victim", Value: []byte("v")})
		s.Delete("x\r\nflush_all\r\n")
		s.Reconnect()
		if _, err := s.Get("victim"); err != nil {
			t.Errorf("%T: a key flushed the server: %v", s, err)
		}
	}
	b := bin(t, a)
	if _, err := b.Get(strings.Repeat("k", 65536)); err == nil || err == merrors.ItemNotFound {
		t.Error("binary: key length wraps around")
	}
}

type failing struct {
	Server
	name   string
	closed *int
}

func (f failing) Name() string { return f.name }
func (f failing) Close() error { *f.closed++; return errors.New("failed") }

func TestDefect_PoolClose(t *testing.T) { // P04
	n := 0
	c, _ := NewSinglePool(failing{name: "a", closed: &n}, failing{name: "b", closed: &n})
	c.Close()
	if n != 2 {
		t.Errorf("%d of 2 servers closed", n)
	}
}
