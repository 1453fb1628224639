package checks

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"runtime/metrics"

	mls "github.com/emersion/go-mls"
	"verif.local/harness/refmls"
	"verif.local/harness/run"
	"verif.local/harness/sim"
)

// Limits of one call. Ordinary calls in these groups use some milliseconds
// and less than a megabyte.
const (
	callCPU   = 20.0
	callAlloc = 48 << 20 // plus callRatio times the size of the input
	callRatio = 2000
)

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// guarded runs a library call under the panic, CPU time and allocation
// monitors. size is the size of the input and of the group it works on.
func guarded(x *run.Ctx, what string, size int, f func()) {
	c0, a0 := run.CPUTime(), allocated()
	msg, stack, bad := x.LibPanics(f)
	c, a := run.CPUTime()-c0, allocated()-a0
	x.Eval(1)
	if bad {
		x.Log("%s", stack)
		x.Fail("panic", "%s panicked: %s", what, msg)
	}
	if c > callCPU {
		x.Fail("cpu", "%s used %.0f s of CPU time for %d bytes", what, c, size)
	}
	if os.Getenv("VMON_ALLOC") != "" && a > 4<<20 {
		fmt.Fprintf(os.Stderr, "alloc %s size %d: %d\n", what, size, a)
	}
	if limit := uint64(callAlloc + callRatio*size); a > limit {
		x.Fail("memory", "%s allocated %d bytes for an input of %d bytes", what, a, size)
	}
}

// target is what hostile bytes are thrown at.
type target struct {
	d     *den
	w     *sim.World
	group *sim.Member
	me    *sim.Client // joiner
	size  int
}

func newTarget(d *den) *target {
	t := &target{d: d, w: d.World, group: d.far, me: d.NewClient(true)}
	t.size = len(d.evil.Ref.Tree.Bytes())
	return t
}

// throw presents bytes to every entry point.
func (t *target) throw(raw []byte) {
	x := t.w.X
	n := len(raw) + t.size
	var kp *mls.KeyPackage
	guarded(x, "UnmarshalKeyPackage", len(raw), func() { kp, _ = mls.UnmarshalKeyPackage(raw) })
	if kp != nil {
		x.Stat("decoded key packages", 1)
		t.useKP(kp, n)
	}
	var wel *mls.Welcome
	guarded(x, "UnmarshalWelcome", len(raw), func() { wel, _ = mls.UnmarshalWelcome(raw) })
	if wel != nil {
		x.Stat("decoded welcomes", 1)
		guarded(x, "Welcome.Bytes", len(raw), func() { wel.Bytes() })
		guarded(x, "Welcome.NewMembers", len(raw), func() { wel.NewMembers() })
		guarded(x, "GroupFromWelcome", n, func() { mls.GroupFromWelcome(wel, t.me.KPP) })
	}
	guarded(x, "UnmarshalAndProcessMessage", n, func() { t.group.Lib.UnmarshalAndProcessMessage(raw) })
}

// useKP uses a decoded key package in every way.
func (t *target) useKP(kp *mls.KeyPackage, n int) {
	x := t.w.X
	guarded(x, "KeyPackage.Bytes", n, func() { kp.Bytes() })
	guarded(x, "KeyPackage.GenerateRef", n, func() { kp.GenerateRef() })
	guarded(x, "CreateWelcome", n, func() { t.group.Lib.CreateWelcome([]mls.KeyPackage{*kp}) })
}

// corpus returns valid encodings of all kinds made for the target.
func (t *target) corpus() (names []string, raws [][]byte) {
	d := t.d
	add := func(name string, b []byte) { names = append(names, name); raws = append(raws, b) }
	add("key package", d.NewClient(false).M.KP.MsgBytes())
	add("rich key package", refmls.NewMember(d.S, d.R, d.RandOpts()).KP.MsgBytes())
	add("native key package", t.me.M.KP.MsgBytes())
	f := (*forged)(nil)
	add("welcome", d.forge(t.me, true, refmls.Hooks{}, func(g *forged) { f = g }).MsgBytes())
	add("welcome without path", d.forge(t.me, false, refmls.Hooks{}, nil).MsgBytes())
	var w refmls.W
	w.U16(1)
	w.U16(4)
	gi := &refmls.GroupInfo{Ctx: f.ctx, ConfTag: f.res.Next.ConfTag, Exts: []refmls.Extension{{Type: 2, Data: f.tree.Bytes()}}}
	gi.Sig = d.S.SignWithLabel(f.key, "GroupInfoTBS", gi.TBS())
	gi.Put(&w)
	add("group info", w.B)
	for _, pub := range []bool{true, false} {
		d.public = pub
		s := func() *refmls.SealOpts { o := d.seal(); return &o }
		add("application", d.evil.Ref.App([]byte("some application data"), nil))
		m := d.NewClient(false).M
		raw, _ := d.evil.Ref.Propose(pAdd(m), s())
		add("add proposal", raw)
		raw, _ = d.evil.Ref.Propose(pRemove(3), s())
		add("remove proposal", raw)
		raw, _ = d.evil.Ref.Propose(pUpdate(d.evil.Ref.NewUpdateLeaf(nil, nil, nil)), s())
		add("update proposal", raw)
		raw, _ = d.evil.Ref.Propose(&refmls.Proposal{Type: refmls.PropGCE, GCE: []refmls.Extension{{Type: 0xfe00, Data: []byte("xyz")}}}, s())
		add("extensions proposal", raw)
		raw, _ = d.evil.Ref.Propose(&refmls.Proposal{Type: refmls.PropPSK, PSK: &refmls.PSKID{Type: refmls.PSKExternal, ID: []byte("id"), Nonce: refmls.Bytes(d.R, d.S.Nh())}}, s())
		add("psk proposal", raw)
		raw, _ = d.evil.Ref.Propose(&refmls.Proposal{Type: refmls.PropReInit, ReInit: &refmls.ReInit{GroupID: []byte("g"), Version: 1, Suite: d.S.ID}}, s())
		add("reinit proposal", raw)
		add("commit", d.commit([]refmls.ProposalOrRef{val(pAdd(m)), val(pRemove(3))}, true, refmls.Hooks{}).Raw)
		add("commit without path", d.commit([]refmls.ProposalOrRef{val(pAdd(m))}, false, refmls.Hooks{}).Raw)
	}
	return
}

var extremes32 = []uint32{0, 1, 2, 3, 63, 64, 127, 255, 256, 16383, 16384, 65535, 65536, 1<<20 - 1, 1 << 20, 1<<24 + 7, 1<<29 + 3, 1<<30 - 1, 1 << 30, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 2, 1<<32 - 1}

// mutate applies a few random structural mutations.
func mutate(r *rand.Rand, pool [][]byte, b []byte) []byte {
	out := append([]byte{}, b...)
	for k := 1 + r.Intn(3); k > 0; k-- {
		if len(out) == 0 {
			out = refmls.Bytes(r, 1+r.Intn(8))
		}
		i := r.Intn(len(out))
		if r.Intn(3) == 0 {
			i = r.Intn(min(len(out), 40)) // headers
		}
		switch r.Intn(11) {
		case 0:
			out[i] ^= 1 << uint(r.Intn(8))
		case 1:
			out[i] = byte(r.Intn(256))
		case 2:
			out = out[:i]
		case 3:
			out = append(out[:i:i], append(refmls.Bytes(r, 1+r.Intn(9)), out[i:]...)...)
		case 4:
			j := i + r.Intn(len(out)-i)
			out = append(out[:i:i], out[j:]...)
		case 5: // length prefix
			v := make([]byte, 4)
			binary.BigEndian.PutUint32(v, extremes32[r.Intn(len(extremes32))]&(1<<30-1)|2<<30)
			out = append(out[:i:i], append(v, out[min(i+1, len(out)):]...)...)
		case 6: // 32 bit number
			v := make([]byte, 4)
			binary.BigEndian.PutUint32(v, extremes32[r.Intn(len(extremes32))])
			copy(out[i:], v)
		case 7: // 16 bit number
			v := make([]byte, 2)
			binary.BigEndian.PutUint16(v, uint16(extremes32[r.Intn(len(extremes32))]))
			copy(out[i:], v)
		case 8: // splice
			o := pool[r.Intn(len(pool))]
			j := r.Intn(len(o) + 1)
			out = append(out[:i:i], o[j:]...)
		case 9: // repeat a part
			j := i + r.Intn(min(len(out)-i, 200))
			out = append(out[:j:j], out[i:]...)
		case 10:
			out[i] = []byte{0, 1, 2, 3, 0x3f, 0x40, 0x7f, 0x80, 0xbf, 0xc0, 0xff}[r.Intn(11)]
		}
		if len(out) > 1<<18 {
			out = out[:1<<18]
		}
	}
	return out
}

func init() {
	run.Register(&run.Check{
		Prop: "C07", Level: "exploration",
		Rule: "distinct (entry kind, suite, message kind or hostile rule, mutation class) presented to the library under the panic, CPU time and allocation monitors",
		Assumptions: []string{
			fmt.Sprintf("a call may use %g s of CPU time and %d MB plus %d times the size of the input and of the group", callCPU, callAlloc>>20, callRatio),
			"inputs up to 256 kB (mutations) or 4 MB (structured)",
		},
		MinEvals: 10000, MinSeen: 300, CPULimit: 240,
		Cases: func(tier string, seed int64) []run.Case {
			var out []run.Case
			out = append(out, casesOf("mutate", scale(tier, 32, 800), seed, nil)...)
			out = append(out, casesOf("lengths", scale(tier, 8, 32), seed, nil)...)
			out = append(out, casesOf("inner", scale(tier, 24, 400), seed, nil)...)
			out = append(out, casesOf("suites", scale(tier, 8, 16), seed, nil)...)
			out = append(out, casesOf("suite5", scale(tier, 4, 16), seed, nil)...)
			out = append(out, casesOf("keys", scale(tier, 16, 64), seed, nil)...)
			out = append(out, casesOf("extreme", scale(tier, 4, 16), seed, nil)...)
			out = append(out, casesOf("big", scale(tier, 4, 16), seed, nil)...)
			out = append(out, casesOf("join-rules", scale(tier, 8, 32), seed, nil)...)
			out = append(out, casesOf("commit-rules", scale(tier, 8, 32), seed, nil)...)
			return out
		},
		Run: func(x *run.Ctx) {
			switch x.Case.Kind {
			case "mutate":
				c07Mutate(x)
			case "lengths":
				c07Lengths(x)
			case "inner":
				c07Inner(x)
			case "suites":
				c07Suites(x)
			case "suite5":
				c07Suite5(x)
			case "keys":
				c07Keys(x)
			case "extreme":
				c07Extreme(x)
			case "big":
				c07Big(x)
			case "join-rules":
				c07JoinRules(x)
			case "commit-rules":
				c07CommitRules(x)
			}
		},
	})
}

func c07Mutate(x *run.Ctx) {
	d := newDen(x, nil)
	t := newTarget(d)
	names, raws := t.corpus()
	for i := 0; i < 1200; i++ {
		k := x.Rng.Intn(len(raws))
		raw := mutate(x.Rng, raws, raws[k])
		x.Log("mutated %s: %s", names[k], sim.Hex(raw))
		t.throw(raw)
		x.Seen("mutate|%d|%s|%d", d.S.ID, names[k], len(raw)/64)
	}
	for i := 0; i < 150; i++ {
		raw := refmls.Bytes(x.Rng, x.Rng.Intn(300))
		if len(raw) > 4 && i%3 > 0 {
			copy(raw, []byte{0, 1, 0, byte(1 + x.Rng.Intn(5))})
		}
		x.Log("random: %s", sim.Hex(raw))
		t.throw(raw)
	}
}

// c07Lengths replaces each byte of each message by an extreme length prefix,
// and truncates it everywhere.
func c07Lengths(x *run.Ctx) {
	d := newDen(x, func(c *sim.Cfg) { c.GID = []byte("g") })
	t := newTarget(d)
	names, raws := t.corpus()
	for k, raw := range raws {
		step := 1
		if len(raw) > 400 {
			step = len(raw) / 200
		}
		for i := x.Rng.Intn(step); i < len(raw); i += step {
			for _, n := range []uint32{1<<30 - 1, 1 << 28, 1 << 26} {
				b := append([]byte{}, raw[:i]...)
				b = binary.BigEndian.AppendUint32(b, n|2<<30)
				if x.Rng.Intn(2) == 0 {
					b = append(b, raw[i+1:]...)
				}
				x.Log("%s with length %d at %d: %s", names[k], n, i, sim.Hex(b))
				t.throw(b)
			}
			t.throw(raw[:i])
		}
		x.Seen("lengths|%d|%s", d.S.ID, names[k])
	}
}

// c07Inner mutates what is encrypted and authenticated by a malicious member
// or inviter.
func c07Inner(x *run.Ctx) {
	d := newDen(x, nil)
	t := newTarget(d)
	_, pool := t.corpus()
	r := x.Rng
	mut := func(b []byte) []byte { return mutate(r, pool, b) }
	long := func(b []byte) []byte {
		i := r.Intn(len(b) + 1)
		out := binary.BigEndian.AppendUint32(append([]byte{}, b[:i]...), uint32(1<<26+r.Intn(1<<29))|2<<30)
		return append(out, b[min(i+1, len(b)):]...)
	}
	for i := 0; i < 160; i++ {
		f := mut
		if i%4 == 0 {
			f = long
		}
		x.Log("inner mutation %d", i)
		join := func(kind string, mod func(*forged)) {
			v := d.NewClient(true)
			raw := d.forge(v, r.Intn(2) == 0, refmls.Hooks{}, mod).MsgBytes()
			x.Log("%s: %s", kind, sim.Hex(raw))
			guarded(x, "joining ("+kind+")", len(raw), func() {
				w, err := mls.UnmarshalWelcome(raw)
				if err == nil {
					mls.GroupFromWelcome(w, v.KPP)
				}
			})
			x.Seen("inner|%d|%s", d.S.ID, kind)
		}
		join("mutated group info", func(g *forged) { g.giRaw = f })
		join("mutated group secrets", func(g *forged) { g.gsRaw = f })
		join("mutated signed tree", func(g *forged) { g.raw = f(g.tree.Bytes()) })
		msg := func(kind string, raw []byte) {
			x.Log("%s: %s", kind, sim.Hex(raw))
			guarded(x, "processing ("+kind+")", len(raw)+t.size, func() { t.group.Lib.UnmarshalAndProcessMessage(raw) })
			x.Seen("inner|%d|%s", d.S.ID, kind)
		}
		msg("mutated application content", d.evil.Ref.App([]byte("data"), &refmls.SealOpts{Plain: f}))
		raw, _ := d.evil.Ref.Propose(pAdd(d.NewClient(false).M), &refmls.SealOpts{Plain: f})
		msg("mutated proposal content", raw)
		msg("mutated commit content", d.evil.Ref.Commit(&refmls.CommitOpts{Path: true, Seal: refmls.SealOpts{Plain: f}}).Raw)
		msg("mutated sender data", d.evil.Ref.App([]byte("data"), &refmls.SealOpts{SDMod: func(b []byte) []byte {
			out := f(b)
			// Moderately large generations are legitimate and cost work.
			if len(out) >= 8 {
				if gen := binary.BigEndian.Uint32(out[4:]); gen >= 1<<12 && gen < 1<<31 {
					binary.BigEndian.PutUint32(out[4:], gen&0xfff)
				}
			}
			return out
		}}))
	}
}

// c07Suites names every cipher suite in key packages and welcomes.
func c07Suites(x *run.Ctx) {
	d := newDen(x, nil)
	t := newTarget(d)
	kp := d.NewClient(false).M.KP.MsgBytes()
	wel := d.forge(t.me, true, refmls.Hooks{}, nil).MsgBytes()
	var ids []uint16
	for i := 0; i < 300; i++ {
		ids = append(ids, uint16(i))
	}
	for i := 0; i < 300; i++ {
		ids = append(ids, uint16(x.Rng.Intn(1<<16)))
	}
	ids = append(ids, 0xffff, 0xf000, 0x4242)
	for _, id := range ids {
		b := append([]byte{}, kp...)
		binary.BigEndian.PutUint16(b[6:], id) // after version, wire format, version
		x.Log("key package of suite %d", id)
		t.throw(b)
		b = append([]byte{}, wel...)
		binary.BigEndian.PutUint16(b[4:], id)
		x.Log("welcome of suite %d", id)
		t.throw(b)
		guarded(x, "CipherSuite methods", 0, func() {
			_ = mls.CipherSuite(id).String()
			mls.CipherSuite(id).Supported()
		})
		if id < 10 {
			x.Seen("suites|%d|%d", d.S.ID, id)
			// a joiner whose own key package has this suite
			m := refmls.NewMember(d.S, d.R, &refmls.MemberOpts{Identity: []byte("odd"), KPPre: func(k *refmls.KeyPackage) { k.Suite = id }})
			var dec *mls.KeyPackage
			var err error
			guarded(x, "UnmarshalKeyPackage", 0, func() { dec, err = mls.UnmarshalKeyPackage(m.KP.MsgBytes()) })
			if err != nil {
				continue
			}
			kpp := &mls.KeyPairPackage{Public: *dec, Private: mls.PrivateKeyPackage{InitKey: m.InitPriv, EncryptionKey: m.EncPriv, SignatureKey: m.SigPriv}}
			w := d.forge(&sim.Client{M: m}, true, refmls.Hooks{}, func(f *forged) {
				f.ctx.Suite = id
				f.wel = func(w *refmls.Welcome) { w.Suite = id }
			})
			guarded(x, "joining with an odd suite", t.size, func() {
				if w, err := mls.UnmarshalWelcome(w.MsgBytes()); err == nil {
					mls.GroupFromWelcome(w, kpp)
				}
			})
		}
	}
}

// c07Suite5 uses a known cipher suite that the library does not announce as
// supported: calls may fail.
func c07Suite5(x *run.Ctx) {
	r := x.Rng
	s := refmls.GetSuite(5)
	evil := refmls.NewMember(s, r, nil)
	for i := 0; i < 4; i++ {
		g := refmls.Create([]byte("group"), evil, uint64(i), nil, r)
		for k := r.Intn(4); k >= 0; k-- {
			g = g.Commit(&refmls.CommitOpts{List: []refmls.ProposalOrRef{val(pAdd(refmls.NewMember(s, r, nil)))}, Path: r.Intn(2) == 0}).Next
		}
		m := refmls.NewMember(s, r, nil)
		var kp *mls.KeyPackage
		var kpp *mls.KeyPairPackage
		var err error
		guarded(x, "UnmarshalKeyPackage", 1000, func() { kp, err = mls.UnmarshalKeyPackage(m.KP.MsgBytes()) })
		if err != nil {
			x.Stat("refused", 1)
			continue
		}
		kpp = &mls.KeyPairPackage{Public: *kp, Private: mls.PrivateKeyPackage{InitKey: m.InitPriv, EncryptionKey: m.EncPriv, SignatureKey: m.SigPriv}}
		for _, path := range []bool{true, false} {
			res := g.Commit(&refmls.CommitOpts{List: []refmls.ProposalOrRef{val(pAdd(m))}, Path: path})
			var lib *mls.Group
			guarded(x, "joining a group of suite 5", 10000, func() {
				if w, err := mls.UnmarshalWelcome(res.Welcome.MsgBytes()); err == nil {
					lib, err = mls.GroupFromWelcome(w, kpp)
				}
			})
			x.Seen("suite5|%v|%d|%v", path, len(g.Tree), lib != nil)
			if lib == nil {
				continue
			}
			for _, raw := range [][]byte{
				res.Next.App([]byte("data"), nil),
				res.Next.Commit(nil).Raw,
				res.Next.Commit(&refmls.CommitOpts{List: []refmls.ProposalOrRef{val(pRemove(1))}, Path: true, Seal: refmls.SealOpts{Public: true}}).Raw,
			} {
				guarded(x, "processing in a group of suite 5", 10000, func() { lib.UnmarshalAndProcessMessage(raw) })
			}
			guarded(x, "CreateWelcome in a group of suite 5", 10000, func() { lib.CreateWelcome([]mls.KeyPackage{*kp}) })
			guarded(x, "CreateApplicationMessage in a group of suite 5", 10000, func() { lib.CreateApplicationMessage([]byte("x")) })
		}
	}
}

// oddKey makes a public key that is malformed in some way.
func oddKey(r *rand.Rand, good []byte) []byte {
	switch r.Intn(9) {
	case 0:
		return []byte{}
	case 1:
		return refmls.Bytes(r, r.Intn(200))
	case 2:
		return good[:r.Intn(len(good))]
	case 3:
		return append(append([]byte{}, good...), 0)
	case 4:
		return make([]byte, len(good))
	case 5:
		b := make([]byte, len(good))
		for i := range b {
			b[i] = 0xff
		}
		return b
	case 6:
		return flip(good, r.Intn(8*len(good)))
	case 7:
		b := append([]byte{}, good...)
		b[0] = byte([]int{0, 2, 3, 4, 5, 6, 7}[r.Intn(7)])
		return b
	}
	b := make([]byte, len(good))
	b[0] = 4
	b[len(b)-1] = byte(r.Intn(3))
	return b
}

// c07Keys puts malformed keys wherever one is expected.
func c07Keys(x *run.Ctx) {
	d := newDen(x, nil)
	t := newTarget(d)
	r := x.Rng
	for i := 0; i < 60; i++ {
		suite := uint16(1 + r.Intn(7))
		if r.Intn(2) == 0 {
			suite = d.S.ID
		}
		good := d.evil.Ref.Tree.Leaf(d.evil.Ref.MyLeaf)
		where := r.Intn(4)
		o := &refmls.MemberOpts{Identity: []byte("odd"),
			LeafPost: func(l *refmls.LeafNode) {
				if where == 0 {
					l.SigKey = oddKey(r, good.SigKey)
				}
			},
			KPPre: func(k *refmls.KeyPackage) {
				k.Suite = suite
				if where == 3 {
					k.InitKey = oddKey(r, good.EncKey)
				}
			},
		}
		if where == 1 {
			o.LeafPre = func(l *refmls.LeafNode) { l.EncKey = oddKey(r, good.EncKey) }
		}
		m := refmls.NewMember(d.S, d.R, o)
		if where == 2 {
			m.KP.Sig = oddKey(r, m.KP.Sig)
		}
		x.Log("odd key package (%d): %s", where, sim.Hex(m.KP.MsgBytes()))
		t.throw(m.KP.MsgBytes())
		x.Seen("keys|%d|kp|%d|%d", d.S.ID, where, suite)
		// added by a member
		for _, path := range []bool{true, false} {
			raw := d.commit([]refmls.ProposalOrRef{val(pAdd(m))}, path, refmls.Hooks{}).Raw
			guarded(x, "processing a commit adding odd keys", len(raw)+t.size, func() { t.group.Lib.UnmarshalAndProcessMessage(raw) })
		}
		// in the path of a member
		h := refmls.Hooks{}
		switch r.Intn(4) {
		case 0:
			h.LeafPre = func(l *refmls.LeafNode) { l.EncKey = oddKey(r, good.EncKey) }
		case 1:
			h.LeafPost = func(l *refmls.LeafNode) { l.SigKey = oddKey(r, good.SigKey) }
		case 2:
			h.PathKeys = func(p [][]byte) { p[r.Intn(len(p))] = oddKey(r, good.EncKey) }
		case 3:
			h.Path = func(u *refmls.UpdatePath) {
				for i := range u.Nodes {
					for j := range u.Nodes[i].Secrets {
						c := &u.Nodes[i].Secrets[j]
						if r.Intn(2) == 0 {
							c.Kem = oddKey(r, c.Kem)
						} else {
							c.Ct = oddKey(r, c.Ct)
						}
					}
				}
			}
		}
		raw := d.commit(nil, true, h).Raw
		guarded(x, "processing a commit with odd keys", len(raw)+t.size, func() { t.group.Lib.UnmarshalAndProcessMessage(raw) })
		// in the tree given to a joiner
		v := d.NewClient(true)
		li := d.LeafOf(d.third)
		wel := d.forge(v, true, refmls.Hooks{Tree: func(t *refmls.Tree) {
			l := t.Leaf(li).Clone()
			switch r.Intn(3) {
			case 0:
				l.SigKey = oddKey(r, l.SigKey)
			case 1:
				l.EncKey = oddKey(r, l.EncKey)
			case 2:
				l.Sig = oddKey(r, l.Sig)
			}
			t.Update(li, l)
		}}, func(f *forged) {
			switch r.Intn(4) {
			case 0:
				f.wel = func(w *refmls.Welcome) { w.Secrets[0].Ct.Kem = oddKey(r, w.Secrets[0].Ct.Kem) }
			case 1:
				f.gs.PathSecret = oddKey(r, f.gs.PathSecret)
			}
		}).MsgBytes()
		guarded(x, "joining a tree with odd keys", len(wel), func() {
			if w, err := mls.UnmarshalWelcome(wel); err == nil {
				mls.GroupFromWelcome(w, v.KPP)
			}
		})
	}
}

// c07Extreme lets a member send correctly protected messages with extreme
// numbers.
func c07Extreme(x *run.Ctx) {
	d := newDen(x, nil)
	t := newTarget(d)
	send := func(kind string, raw []byte) {
		x.Log("extreme: %s", kind)
		guarded(x, "processing ("+kind+")", len(raw)+t.size, func() { t.group.Lib.UnmarshalAndProcessMessage(raw) })
		x.Seen("extreme|%d|%s", d.S.ID, kind)
	}
	for _, gen := range []uint32{1<<32 - 1, 1<<32 - 2, 1 << 31, 1 << 24, 1 << 26, 1 << 28, 1 << 30} {
		for _, ct := range []string{"application", "proposal", "commit"} {
			// the key used does not matter: it is derived first
			o := refmls.SealOpts{SDMod: func(b []byte) []byte {
				out := append([]byte{}, b...)
				binary.BigEndian.PutUint32(out[4:], gen)
				return out
			}}
			var raw []byte
			switch ct {
			case "application":
				raw = d.evil.Ref.App([]byte("data"), &o)
			case "proposal":
				raw, _ = d.evil.Ref.Propose(pRemove(3), &o)
			case "commit":
				raw = d.evil.Ref.Commit(&refmls.CommitOpts{Path: true, Seal: o}).Raw
			}
			send(fmt.Sprintf("%s of generation %d", ct, gen), raw)
		}
	}
	for _, li := range extremes32 {
		send(fmt.Sprintf("sender leaf %d", li), d.evil.Ref.App([]byte("data"), &refmls.SealOpts{SDMod: func(b []byte) []byte {
			out := append([]byte{}, b...)
			binary.BigEndian.PutUint32(out, li)
			return out
		}}))
		for _, pub := range []bool{true, false} {
			d.public = pub
			o := d.seal()
			o.Leaf, o.RatchetLeaf = &li, u32(d.evil.Ref.MyLeaf)
			o.Content = func(c *refmls.FramedContent) { c.Sender.Index = li }
			raw, _ := d.evil.Ref.Propose(pRemove(3), &o)
			send(fmt.Sprintf("proposal of leaf %d", li), raw)
			if li != d.evil.Ref.MyLeaf {
				send(fmt.Sprintf("commit of leaf %d", li), d.evil.Ref.Commit(&refmls.CommitOpts{Path: true, Seal: o}).Raw)
			}
			o = d.seal()
			raw, ref := d.evil.Ref.Propose(pRemove(li), &o)
			send(fmt.Sprintf("proposal to remove leaf %d", li), raw)
			send(fmt.Sprintf("commit removing leaf %d by reference", li), d.commit([]refmls.ProposalOrRef{{Ref: ref}}, true, refmls.Hooks{ApplyProps: []*refmls.Proposal{}, ApplySender: []uint32{}}).Raw)
			send(fmt.Sprintf("commit removing leaf %d", li), d.commit([]refmls.ProposalOrRef{val(pRemove(li))}, true, refmls.Hooks{ApplyProps: []*refmls.Proposal{}, ApplySender: []uint32{}}).Raw)
		}
		v := d.NewClient(true)
		raw := d.forge(v, true, refmls.Hooks{}, func(f *forged) { f.signer = li }).MsgBytes()
		guarded(x, "joining with an extreme signer", len(raw), func() {
			if w, err := mls.UnmarshalWelcome(raw); err == nil {
				mls.GroupFromWelcome(w, v.KPP)
			}
		})
		raw = d.forge(v, true, refmls.Hooks{}, func(f *forged) {
			f.tree[refmls.RootOf(len(f.tree))].Parent.Unmerged = []uint32{li}
			f.rehash()
			f.gs.HasPath = d.R.Intn(2) == 0
		}).MsgBytes()
		guarded(x, "joining with an extreme unmerged leaf", len(raw), func() {
			if w, err := mls.UnmarshalWelcome(raw); err == nil {
				mls.GroupFromWelcome(w, v.KPP)
			}
		})
	}
	// still alive
	d.Agree()
}

// c07Big sends large but cheap-to-make structures.
func c07Big(x *run.Ctx) {
	d := newDen(x, func(c *sim.Cfg) { c.GID = []byte("g") })
	t := newTarget(d)
	r := x.Rng
	send := func(kind string, raw []byte) {
		x.Log("big: %s", kind)
		guarded(x, "processing ("+kind+")", len(raw)+t.size, func() { t.group.Lib.UnmarshalAndProcessMessage(raw) })
		x.Seen("big|%d|%s", d.S.ID, kind)
	}
	join := func(kind string, mod func(*forged)) {
		v := d.NewClient(true)
		raw := d.forge(v, true, refmls.Hooks{}, mod).MsgBytes()
		x.Log("big: %s", kind)
		guarded(x, "joining ("+kind+")", len(raw), func() {
			if w, err := mls.UnmarshalWelcome(raw); err == nil {
				w.NewMembers()
				mls.GroupFromWelcome(w, v.KPP)
			}
		})
		x.Seen("big|%d|%s", d.S.ID, kind)
	}
	none := refmls.Hooks{ApplyProps: []*refmls.Proposal{}, ApplySender: []uint32{}}
	list := func(n int, f func(i int) *refmls.Proposal) []refmls.ProposalOrRef {
		var out []refmls.ProposalOrRef
		for i := 0; i < n; i++ {
			out = append(out, val(f(i)))
		}
		return out
	}
	m := d.NewClient(false).M
	one := d.NewClient(false).M
	for _, pub := range []bool{true, false} {
		d.public = pub
		send("many adds", d.commit(list(2000, func(int) *refmls.Proposal { return pAdd(m) }), true, none).Raw)
		send("many removes", d.commit(list(20000, func(i int) *refmls.Proposal { return pRemove(uint32(i)) }), true, none).Raw)
		send("many references", d.commit(func() (out []refmls.ProposalOrRef) {
			for i := 0; i < 20000; i++ {
				out = append(out, refmls.ProposalOrRef{Ref: refmls.Bytes(r, d.S.Nh())})
			}
			return
		}(), true, none).Raw)
		send("long path", d.commit(nil, true, refmls.Hooks{Path: func(u *refmls.UpdatePath) {
			n := u.Nodes[0]
			for i := 0; i < 2000; i++ {
				u.Nodes = append(u.Nodes, n)
			}
		}}).Raw)
		send("empty path", d.commit(nil, true, refmls.Hooks{Path: func(u *refmls.UpdatePath) { u.Nodes = nil }}).Raw)
		send("many path secrets", d.commit(nil, true, refmls.Hooks{Path: func(u *refmls.UpdatePath) {
			for i := range u.Nodes {
				if len(u.Nodes[i].Secrets) > 0 {
					for j := 0; j < 5000; j++ {
						u.Nodes[i].Secrets = append(u.Nodes[i].Secrets, u.Nodes[i].Secrets[0])
					}
				}
			}
		}}).Raw)
		send("no path secrets", d.commit(nil, true, refmls.Hooks{Path: func(u *refmls.UpdatePath) {
			for i := range u.Nodes {
				u.Nodes[i].Secrets = nil
			}
		}}).Raw)
		exts := func(n int) (out []refmls.Extension) {
			for i := 0; i < n; i++ {
				out = append(out, refmls.Extension{Type: uint16(i)})
			}
			return
		}
		send("many extensions", d.commit(list(1, func(int) *refmls.Proposal {
			return &refmls.Proposal{Type: refmls.PropGCE, GCE: exts(50000)}
		}), true, none).Raw)
	}
	send("large padding", d.evil.Ref.App([]byte("data"), &refmls.SealOpts{Pad: 1 << 20}))
	send("large payload", d.evil.Ref.App(make([]byte, 1<<20), nil))
	send("large authenticated data", d.evil.Ref.App([]byte("x"), &refmls.SealOpts{AAD: make([]byte, 1<<20)}))
	join("many secrets", func(f *forged) {
		f.wel = func(w *refmls.Welcome) {
			s := w.Secrets[0]
			s.Ref = refmls.Bytes(r, 32)
			for i := 0; i < 8000; i++ {
				w.Secrets = append([]refmls.EncGroupSecrets{s}, w.Secrets...)[:min(len(w.Secrets)+1, 8000)]
			}
		}
	})
	blanks := func(n int, f *forged) []byte {
		tr := f.tree.Clone()
		for len(tr) < n {
			tr = append(tr, nil)
		}
		tr[n-1] = &refmls.Node{Leaf: &one.KP.Leaf}
		var w refmls.W
		tr.PutRaw(&w, n)
		return w.B
	}
	join("mostly blank tree", func(f *forged) { f.raw = blanks(1<<17-1, f) })
	join("mostly blank consistent tree", func(f *forged) {
		for len(f.tree) < 1<<15-1 {
			f.tree = append(f.tree, nil)
		}
		f.tree[len(f.tree)-1] = &refmls.Node{Leaf: &one.KP.Leaf}
		f.gs.HasPath, f.gs.PathSecret = false, nil
	})
	join("all blank tree", func(f *forged) {
		var w refmls.W
		make(refmls.Tree, 1<<20).PutRaw(&w, 1<<20)
		f.raw = w.B
	})
	join("many psks", func(f *forged) {
		for i := 0; i < 5000; i++ {
			f.gs.PSKs = append(f.gs.PSKs, refmls.PSKID{Type: refmls.PSKExternal, ID: []byte{byte(i)}, Nonce: []byte{}})
		}
	})
	join("many unmerged leaves", func(f *forged) {
		for _, p := range refmls.DirectPath(2*int(f.signer), len(f.tree)) {
			if f.tree[p] != nil {
				for i := 0; i < 60000; i++ {
					f.tree[p].Parent.Unmerged = append(f.tree[p].Parent.Unmerged, f.res.Adds[0])
				}
			}
		}
		f.rehash()
		f.gs.HasPath, f.gs.PathSecret = false, nil
	})
	caps := refmls.DefaultCaps(d.S)
	for i := 0; i < 60000; i++ {
		caps.Extensions = append(caps.Extensions, uint16(i))
		caps.Credentials = append(caps.Credentials, uint16(i))
	}
	rich := refmls.NewMember(d.S, d.R, &refmls.MemberOpts{Identity: make([]byte, 1<<19), Caps: &caps})
	t.throw(rich.KP.MsgBytes())
	d.Agree()
}

// c07JoinRules and c07CommitRules run the hostile catalogs for their effect on
// the process only.
func c07JoinRules(x *run.Ctx) {
	d := newDen(x, nil)
	for _, ru := range joinRules() {
		v := (*sim.Client)(nil)
		if ru.victim != nil {
			v = ru.victim(d)
		} else {
			v = d.NewClient(true)
		}
		if v == nil {
			continue
		}
		w := ru.f(d, v)
		if w == nil {
			continue
		}
		raw := w.MsgBytes()
		x.Log("join rule %s", ru.name)
		guarded(x, "joining ("+ru.name+")", len(raw), func() {
			if w, err := mls.UnmarshalWelcome(raw); err == nil {
				mls.GroupFromWelcome(w, v.KPP)
			}
		})
		x.Seen("join|%d|%s", d.S.ID, ru.name)
	}
}

func c07CommitRules(x *run.Ctx) {
	var d *den
	for i, ru := range commitRules() {
		if i%20 == 0 {
			d = newDen(x, nil)
		}
		d.public = x.Rng.Intn(2) == 0
		t := ru.f(d)
		if t == nil || t.follow {
			continue
		}
		x.Log("commit rule %s", ru.name)
		who := t.who
		if who == nil {
			who = d.Libs()
		}
		for _, m := range who {
			guarded(x, "processing ("+ru.name+")", len(t.raw)+20000, func() { m.Lib.UnmarshalAndProcessMessage(t.raw) })
		}
		x.Seen("commit|%d|%v|%s", d.S.ID, d.public, ru.name)
		d.Commit(&sim.Spec{By: d.evil, Path: true, Seal: d.RandSeal()})
	}
}
