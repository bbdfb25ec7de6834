package party

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/polyring"
	"github.com/DyCAPSTeam/DyCAPS/pkg/core"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"github.com/drand/kyber/share"
)

// tap sees every message and returns the one to deliver (nil: none).
type tap func(from *HonestParty, to uint32, m *protobuf.Message) *protobuf.Message

// demoNet connects members by channels instead of TCP connections.
type demoNet struct {
	tap tap
	in  map[*HonestParty]chan *protobuf.Message
}

func newNet(t tap) *demoNet {
	return &demoNet{tap: t, in: map[*HonestParty]chan *protobuf.Message{}}
}

func (n *demoNet) member(N, F, pid uint32, pk *share.PubPoly, sk *share.PriShare) *HonestParty {
	ips, ports := make([]string, N), make([]string, N)
	p := NewHonestParty(0, N, F, pid, ips, ports, ips, ports, pk, sk)
	c := make(chan *protobuf.Message, 4096)
	p.dispatchChannels = core.MakeDispatcheChannels(c, N)
	n.in[p] = c
	return p
}

func (n *demoNet) committee(N, F uint32) []*HonestParty {
	sk, pk := SigKeyGen(N, 2*F+1)
	ps := make([]*HonestParty, N)
	for i := range ps {
		ps[i] = n.member(N, F, uint32(i), pk, sk[i])
	}
	return ps
}

func (n *demoNet) wire(p *HonestParty, chans []chan *protobuf.Message, to []*HonestParty) {
	for j := range to {
		c := make(chan *protobuf.Message, 4096)
		chans[j] = c
		go func(j uint32, q *HonestParty) {
			for m := range c {
				if n.tap != nil {
					m = n.tap(p, j, m)
				}
				if m != nil {
					n.in[q] <- m
				}
			}
		}(uint32(j), to[j])
	}
}

// connect lets every member send to its own committee (and to next).
func (n *demoNet) connect(ps, next []*HonestParty) {
	for _, p := range ps {
		n.wire(p, p.sendChannels, ps)
		if next != nil {
			n.wire(p, p.sendToNextChannels, next)
		}
	}
}

func (n *demoNet) client(N, F uint32, secret uint64, ps []*HonestParty) *Client {
	var c Client
	var s bls.Fr
	bls.AsFr(&s, secret)
	c.SetSecret(s)
	c.HonestParty = n.member(N, F, 0x7fffffff, nil, nil)
	n.wire(c.HonestParty, c.HonestParty.sendChannels, ps)
	return &c
}

// each runs f for the given members and waits at most d.
func each(t *testing.T, d time.Duration, what string, ps []*HonestParty, f func(p *HonestParty)) {
	var wg sync.WaitGroup
	for _, p := range ps {
		wg.Add(1)
		go func(p *HonestParty) {
			f(p)
			wg.Done()
		}(p)
	}
	done := make(chan bool)
	go func() {
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(d):
		t.Fatalf("%s: not finished after %v", what, d)
	}
}

// secretOf interpolates the secret from the reduced shares of 2t+1 members.
func secretOf(ps []*HonestParty, F uint32) string {
	var x, y = make([]bls.Fr, 2*F+1), make([]bls.Fr, 2*F+1)
	for i := range x {
		bls.AsFr(&x[i], uint64(ps[i].PID+1))
		bls.EvalPolyAt(&y[i], ps[i].reducedShare, &bls.ZERO)
	}
	return polyring.LagrangeInterpolate(int(2*F), x, y)[0].String()
}

func frString(v uint64) string {
	var s bls.Fr
	bls.AsFr(&s, v)
	return s.String()
}

// shared gives a committee ps a sharing of the secret and hands it to next (up to the reduced shares).
func reduceTo(t *testing.T, n *demoNet, N, F uint32, secret uint64, ps, next []*HonestParty, id string) {
	n.client(N, F, secret, ps).Share([]byte(id + "vss"))
	each(t, 60*time.Second, "VSS", ps, func(p *HonestParty) { p.VSSShareReceive([]byte(id + "vss")) })
	handTo(t, ps, next, id)
}

func handTo(t *testing.T, ps, next []*HonestParty, id string) {
	for _, p := range ps {
		go func(p *HonestParty) {
			p.PrepareSend([]byte(id + "prep"))
			p.ShareReduceSend([]byte(id + "red"))
		}(p)
	}
	each(t, 60*time.Second, "reduce", next, func(p *HonestParty) {
		p.PrepareReceive([]byte(id + "prep"))
		p.ShareReduceReceive([]byte(id + "red"))
	})
}


// waitFor polls until f holds.
func waitFor(t *testing.T, f func() bool) {
	for i := 0; !f(); i++ {
		if i > 1200 {
			t.Fatal(fmt.Sprint("not reached within a minute"))
		}
		time.Sleep(50 * time.Millisecond)
	}
}
