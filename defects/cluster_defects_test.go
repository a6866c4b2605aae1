package cluster

import (
	"testing"

	"go.f110.dev/go-memcached/client"
)

func TestDefect_CasThroughReplicaPool(t *testing.T) { // P06
	r := newTestReplicaPool(t)
	defer r.Stop(t)
	for i := 0; i < 5; i++ { // CAS values of the two sides drift apart
		r.replicaPool.primary.Pick("x").Set(&client.Item{Key: "x"})
	}
	r.replicaPool.Set(&client.Item{Key: "k", Value: []byte("1")})
	it, _ := r.replicaPool.Get("k")
	if err := r.replicaPool.Set(&client.Item{Key: "k", Value: []byte("2"), Cas: it.Cas}); err != nil {
		t.Errorf("CAS write fails on the secondary: %v", err)
	}
	if it, err := r.replicaPool.secondary.Pick("k").Get("k"); err != nil || string(it.Value) != "2" {
		t.Errorf("secondary is stale: %v", err)
	}
}

func TestDefect_CounterWithoutExpiration(t *testing.T) { // P06
	r := newTestReplicaPool(t)
	defer r.Stop(t)
	r.replicaPool.Set(&client.Item{Key: "n", Value: []byte("1")})
	if _, err := r.replicaPool.Increment("n", 1, 0); err != nil {
		t.Fatal(err)
	}
	if it, err := r.replicaPool.secondary.Pick("n").Get("n"); err != nil || string(it.Value) != "2" {
		t.Errorf("secondary lost the counter: %v", err)
	}
}
