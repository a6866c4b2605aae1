package proxy

import (
	"context"
	"fmt"
	"testing"

	"go.f110.dev/go-memcached/client"
	"go.f110.dev/go-memcached/cluster"
	"go.f110.dev/go-memcached/server"
	"go.f110.dev/go-memcached/testutil"
)

func TestDefect_Proxy(t *testing.T) { // X01
	mk := func(n string) *client.ServerWithMetaProtocol {
		p := testutil.NewMemcachedProcess(t, nil)
		t.Cleanup(func() { p.Stop(t) })
		s, err := client.NewServerWithMetaProtocol(context.Background(), n, "tcp", fmt.Sprintf("127.0.0.1:%d", p.Port))
		if err != nil {
			t.Fatal(err)
		}
		return s
	}
	p := NewReplicaProxy(cluster.NewReplicaPool([]*client.ServerWithMetaProtocol{mk("a")}, []*client.ServerWithMetaProtocol{mk("b")}))
	p.ServeRequest(&server.Request{Opcode: server.OpcodeSet, Key: "k", Value: []byte("v"), Flags: []byte{0, 0, 0, 7}, SetOpt: &server.SetOpt{}})
	res, err := p.ServeRequest(&server.Request{Opcode: server.OpcodeGet, Key: "k"})
	if err != nil || string(res[0].Flags) != "\x00\x00\x00\x07" {
		t.Errorf("get: flags lost: %v", err)
	}
	res, err = p.ServeRequest(&server.Request{Opcode: server.OpcodeGet, Keys: []string{"k", "missing"}})
	if err != nil || len(res) != 1 || res[0].Key != "k" || string(res[0].Value) != "v" {
		t.Errorf("gets: %v %v", res, err)
	}
	p.ServeRequest(&server.Request{Opcode: server.OpcodeSet, Key: "m", Value: []byte("v"), SetOpt: &server.SetOpt{Meta: true, Flag: 9}})
	res, err = p.ServeRequest(&server.Request{Opcode: server.OpcodeGet, Key: "m"})
	if err != nil || string(res[0].Flags) != "\x00\x00\x00\x09" {
		t.Errorf("meta set: flags lost: %v", err)
	}
}
