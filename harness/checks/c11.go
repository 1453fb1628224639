package checks

import (
	"bytes"
	"fmt"

	mls "github.com/emersion/go-mls"
	"verif.local/harness/refmls"
	"verif.local/harness/run"
	"verif.local/harness/sim"
)

func init() {
	run.Register(&run.Check{
		Prop: "C11", Level: "exploration",
		Rule: "distinct (suite, kind of message, generation, history before it) emissions whose generation was the next unused one",
		Assumptions: []string{
			"a failed call may or may not use up a generation",
			"a random 4-byte guard repeats 3 times among a few hundred messages with probability below 1e-12",
		},
		MinEvals: 5000, MinSeen: 100,
		Cases: func(tier string, seed int64) []run.Case {
			var out []run.Case
			out = append(out, casesOf("history", scale(tier, 96, 500), seed, nil)...)
			out = append(out, casesOf("long", scale(tier, 4, 16), seed, nil)...)
			out = append(out, casesOf("equal", scale(tier, 16, 100), seed, nil)...)
			out = append(out, casesOf("crowd", scale(tier, 4, 16), seed, nil)...)
			return out
		},
		Run: func(x *run.Ctx) {
			if x.Case.Kind == "crowd" {
				crowdKeys(x)
				return
			}
			switch x.Case.Kind {
			case "history":
				c11History(x)
			case "long":
				c11Long(x)
			case "equal":
				c11Equal(x)
			}
		},
	})
}

// keyMonitor follows the generations every library member uses.
type keyMonitor struct {
	w     *sim.World
	next  map[string]uint32 // by epoch, member and ratchet
	slack map[string]uint32 // failed calls
	used  map[string]bool   // keys
	guard map[string]int
	bytes [4]map[byte]bool
	n     int
	last  string // what happened before
	aad   map[uint64]string
}

func monitorKeys(w *sim.World) *keyMonitor {
	k := &keyMonitor{w: w, next: map[string]uint32{}, slack: map[string]uint32{}, used: map[string]bool{}, guard: map[string]int{}, aad: map[uint64]string{}}
	for i := range k.bytes {
		k.bytes[i] = map[byte]bool{}
	}
	w.OnLibMsg = k.see
	return k
}

func (k *keyMonitor) ratchet(m *sim.Member, app bool) string {
	return fmt.Sprint(k.w.Epoch, "/", m.Name, "/", app)
}

// failed notes that a call of m failed.
func (k *keyMonitor) failed(m *sim.Member, app bool) { k.slack[k.ratchet(m, app)]++ }

func (k *keyMonitor) see(m *sim.Member, raw []byte, ev *refmls.Event) {
	x := k.w.X
	x.Eval(1)
	if ev.Wire != refmls.WirePrivate {
		x.Fail("clear", "%s sent a message in the clear", m.Name)
	}
	app := ev.Type == refmls.ContentApp
	id := k.ratchet(m, app)
	want := k.next[id]
	if ev.Gen < want {
		x.Fail("key-reuse", "%s encrypted two messages of epoch %d with generation %d", m.Name, k.w.Epoch, ev.Gen)
	}
	if ev.Gen > want+k.slack[id] {
		x.Fail("skip", "%s used generation %d, next unused one is %d", m.Name, ev.Gen, want)
	}
	k.slack[id] -= ev.Gen - want
	k.next[id] = ev.Gen + 1
	if ev.Sender != k.w.LeafOf(m) {
		x.Fail("sender", "%s at leaf %d sends as leaf %d", m.Name, k.w.LeafOf(m), ev.Sender)
	}
	k.guard[string(ev.Guard)]++
	if k.guard[string(ev.Guard)] >= 3 {
		x.Fail("guard", "the nonce guard %x was used three times in %d messages", ev.Guard, k.n)
	}
	for i := range k.bytes {
		k.bytes[i][ev.Guard[i]] = true
	}
	k.n++
	k.visible(m, raw, ev)
	x.Seen("%v|%d|%d|%s", app, k.w.S.ID, min(ev.Gen, 40), k.last)
}

// visible checks what an observer on the network sees.
func (k *keyMonitor) visible(m *sim.Member, raw []byte, ev *refmls.Event) {
	x := k.w.X
	pm, err := refmls.ParseMessage(raw)
	if err != nil || pm.Private == nil {
		x.Fail("clear", "%s sent something that is not an encrypted message", m.Name)
	}
	p := pm.Private
	// all that is readable is the same for all senders
	clear := fmt.Sprintf("%x/%d/%x", p.GroupID, p.Epoch, p.AAD)
	if old, ok := k.aad[p.Epoch]; ok && old != clear {
		x.Fail("visible", "the readable part of messages of epoch %d differs: %s, %s", p.Epoch, clear, old)
	}
	k.aad[p.Epoch] = clear
	if len(p.EncSenderData) != 12+16 {
		x.Fail("visible", "encrypted sender data has %d bytes", len(p.EncSenderData))
	}
	leaf := k.w.Witness().Ref.Tree.Leaf(ev.Sender)
	for _, s := range [][]byte{ev.App, leaf.SigKey, leaf.EncKey, m.C.M.KP.Leaf.Cred.Identity} {
		// look for any eight bytes of it
		for i := 0; i+8 <= len(s); i += 8 {
			if bytes.Contains(raw, s[i:i+8]) {
				x.Fail("visible", "part of the payload or of the sender's identity or keys is readable in a message of %s", m.Name)
			}
		}
	}
	for i := range ev.Props {
		pr := ev.Props[i]
		if pr.Add != nil {
			for _, s := range [][]byte{pr.Add.InitKey, pr.Add.Leaf.EncKey, pr.Add.Leaf.SigKey} {
				if bytes.Contains(raw, s[:16]) {
					x.Fail("visible", "an added key package is readable in an encrypted commit of %s", m.Name)
				}
			}
		}
	}
}

func (k *keyMonitor) finish() {
	if k.n < 40 {
		return
	}
	for i := range k.bytes {
		if len(k.bytes[i]) < 16 {
			k.w.X.Fail("guard", "byte %d of the nonce guard took %d values in %d messages", i, len(k.bytes[i]), k.n)
		}
	}
}

func c11History(x *run.Ctx) {
	r := x.Rng
	w := newWorld(x, func(c *sim.Cfg) { c.Strict = true })
	k := monitorKeys(w)
	grow(w, 2+r.Intn(6))
	addKinds(w, 2, 1)
	d := &den{World: w}
	for step := 0; step < 60; step++ {
		libs := w.Libs()
		m := libs[r.Intn(len(libs))]
		switch r.Intn(10) {
		case 0, 1, 2, 3:
			w.Say(m, w.Payload(), nil, nil)
			k.last = "message"
		case 4, 5:
			cl, _ := w.NewClients(1 + r.Intn(2))
			w.Prepare(m, cl)
			k.last = "discarded invitation"
		case 6: // fails, or is dropped
			_, kp := d.badKP()
			bad, err := mls.UnmarshalKeyPackage(kp.MsgBytes())
			if err != nil {
				continue
			}
			x.Lib("CreateWelcome", func() {
				_, _, err = m.Lib.CreateWelcome([]mls.KeyPackage{*bad})
			})
			k.failed(m, false)
			k.last = "failed invitation"
		case 7: // refused traffic
			b := w.Witness().Ref.Clone().Commit(nil).Raw
			var err error
			x.Lib("process", func() { _, err = m.Lib.UnmarshalAndProcessMessage(flip(b, 8*len(b)-9)) })
			if err == nil {
				x.Stat("accepted invalid message (left to other properties)", 1)
				return
			}
			k.last = "refused commit"
		case 8: // its own messages come back
			raw := w.LibApp(m, []byte("echo"))
			for _, o := range w.Members {
				if o != m {
					w.ExpectApp(o, raw, []byte("echo"), m.Name)
				}
			}
			ev := openBy(w, m, raw)
			k.see(m, raw, ev)
			x.Lib("process own message", func() { m.Lib.UnmarshalAndProcessMessage(raw) })
			k.last = "echo"
		case 9:
			// a new epoch, sometimes by one of several prepared
			// invitations
			if r.Intn(2) == 0 && len(w.Members) < 10 {
				a := w.Prepare(m, []*sim.Client{w.NewClient(false)})
				b := w.Prepare(m, []*sim.Client{w.NewClient(true)})
				if r.Intn(2) == 0 {
					w.Complete(m, a, []bool{false})
				} else {
					w.Complete(m, b, []bool{true})
				}
				k.last = "own commit"
			} else {
				w.RandomStep(10)
				addKinds(w, 2, 1)
				k.last = "other commit"
			}
		}
	}
	k.finish()
	x.Sample("%d emissions, %d ratchets", k.n, len(k.next))
}

// c11Long goes far along one ratchet.
func c11Long(x *run.Ctx) {
	w := newWorld(x, func(c *sim.Cfg) { c.Strict, c.GID = true, []byte("g") })
	k := monitorKeys(w)
	addKinds(w, 1, 1)
	m := w.Libs()[0]
	for i := 0; i < 300; i++ {
		w.Say(m, w.SmallPayload(), nil, []*sim.Member{w.Witness()})
		if i%10 == 0 {
			w.Prepare(m, []*sim.Client{w.NewClient(false)})
		}
	}
	c := w.NewClient(false)
	for i := 0; i < 270; i++ {
		w.Prepare(m, []*sim.Client{c})
	}
	k.finish()
	if k.n < 300 {
		panic("nothing observed")
	}
}

// c11Equal compares ciphertexts of equal and related payloads.
func c11Equal(x *run.Ctx) {
	r := x.Rng
	w := newWorld(x, nil)
	grow(w, 2+r.Intn(3))
	addKinds(w, 2, 1)
	k := monitorKeys(w)
	n := 2048
	base := refmls.Bytes(r, n)
	var cts, pts [][]byte
	var names []string
	for i := 0; i < 10; i++ {
		libs := w.Libs()
		m := libs[r.Intn(len(libs))]
		p := append([]byte{}, base...)
		if i%3 == 2 {
			p = refmls.Bytes(r, n)
		}
		raw := w.LibApp(m, p)
		k.see(m, raw, openBy(w, m, raw))
		pm, _ := refmls.ParseMessage(raw)
		cts = append(cts, pm.Private.Ciphertext)
		pts = append(pts, p)
		names = append(names, m.Name)
		if i == 5 {
			w.RandomStep(8)
			addKinds(w, 2, 1)
		}
	}
	for i := range cts {
		for j := 0; j < i; j++ {
			same, stream := 0, 0
			l := min(len(cts[i]), len(cts[j]), n)
			for b := 0; b < l; b++ {
				if cts[i][b] == cts[j][b] {
					same++
				}
				if b >= 2 && cts[i][b]^cts[j][b] == pts[i][b-2]^pts[j][b-2] {
					stream++
				}
			}
			x.Eval(1)
			if same > n/16 || stream > n/16 {
				x.Fail("related", "ciphertexts %d (%s) and %d (%s) of the same length agree in %d of %d bytes", i, names[i], j, names[j], same, l)
			}
			if bytes.Equal(cts[i][:16], cts[j][:16]) || bytes.Equal(cts[i][len(cts[i])-16:], cts[j][len(cts[j])-16:]) {
				x.Fail("related", "two ciphertexts begin or end with the same block")
			}
			x.Seen("equal|%d|%v|%v", w.S.ID, names[i] == names[j], bytes.Equal(pts[i], pts[j]))
		}
	}
}
