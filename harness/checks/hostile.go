package checks

import (
	"slices"
	"time"

	"verif.local/harness/refmls"
	"verif.local/harness/run"
	"verif.local/harness/sim"
)

// den is a world with a malicious member, honest reference members and
// library members whose behaviour is judged.
type den struct {
	*sim.World
	evil   *sim.Member
	peer   *sim.Member // honest reference member
	third  *sim.Member // another honest reference member
	near   *sim.Member // library member below the same child of the root as evil
	far    *sim.Member // library member below the other child
	public bool
	// commits carry further adds
	dilute, diluted bool
	// invitations may name any epoch
	anyEpoch bool
}

// newDen builds a tree with at least six leaves, two of them library members
// in different halves, with blank leaves and unmerged leaves in various
// places. The malicious member is at leaf 0, 1, 3 or in the right half.
func newDen(x *run.Ctx, mod func(*sim.Cfg)) *den {
	r := x.Rng
	w := newWorld(x, func(c *sim.Cfg) {
		c.LibFound, c.X509, c.Variety = false, false, false
		c.Able = r.Intn(3) == 0
		if mod != nil {
			mod(c)
		}
	})
	d := &den{World: w, public: r.Intn(2) == 0}
	boss := w.Members[0]
	one := func(lib bool, path bool) *sim.Member {
		w.Commit(&sim.Spec{By: boss, Adds: []*sim.Client{w.NewClient(lib)}, AddLib: []bool{lib}, Path: path, Seal: w.RandSeal()})
		return w.Members[len(w.Members)-1]
	}
	first := one(false, true)
	role := r.Intn(7)
	// two more, who leave, so that leaves beyond are still reached once a
	// newcomer has taken the first of the two places
	var ghosts []*sim.Member
	if role != 2 && r.Intn(4) == 0 {
		ghosts = []*sim.Member{one(false, true), one(false, r.Intn(2) == 0)}
	}
	plain := r.Intn(2)
	w.Plain = plain == 0
	left := one(true, r.Intn(2) == 0)
	w.Plain = false
	last := one(false, true)
	filler := one(false, true)
	sixth := one(false, r.Intn(2) == 0)
	if r.Intn(2) == 0 {
		one(r.Intn(2) == 0, true)
	}
	w.Plain = plain == 1
	right := one(true, true)
	w.Plain = false
	d.evil, d.peer, d.third, d.near, d.far = boss, first, last, left, right
	switch role {
	case 0:
		d.evil, d.peer = first, boss
	case 1:
		d.evil, d.third = last, boss
	case 2:
		d.evil, d.peer, d.third, d.near, d.far = sixth, first, boss, right, left
	case 6:
		d.evil = sixth
		d.near, d.far = right, left
	}
	path := func(by *sim.Member) { w.Commit(&sim.Spec{By: by, Path: true, Seal: w.RandSeal()}) }
	remove := func(by, m *sim.Member) {
		w.Commit(&sim.Spec{By: by, Removes: []*sim.Member{m}, Path: true, Seal: w.RandSeal()})
	}
	if ghosts != nil {
		w.Commit(&sim.Spec{By: d.peer, Removes: ghosts, Path: true, Seal: w.RandSeal()})
	}
	path(last)
	switch r.Intn(6) {
	case 0:
		remove(d.peer, filler)
		if r.Intn(2) == 0 {
			path(sixth)
		}
	case 1:
		path(filler)
		one(false, false)
	case 2:
		w.Commit(&sim.Spec{By: d.peer, Updates: []*sim.Member{d.third}, Path: true, Seal: w.RandSeal()})
		path(filler)
	case 3:
		// blank in the left half
		var spare *sim.Member
		for _, m := range []*sim.Member{boss, first, last} {
			if m != d.evil && m != d.peer && (spare == nil || r.Intn(2) == 0) {
				spare = m
			}
		}
		remove(d.peer, spare)
		if spare == d.third {
			d.third = filler
		}
		if r.Intn(2) == 0 {
			path(filler)
		}
	case 4:
		// a leaf is refilled below nodes that its sibling has filled
		remove(d.peer, filler)
		path(sixth)
		one(false, false)
		if r.Intn(2) == 0 {
			path(d.peer)
		}
	case 5:
		// the same in the left half
		var out, stay *sim.Member
		for _, p := range [][2]*sim.Member{{boss, first}, {first, boss}, {left, last}} {
			if p[0] != d.evil && p[0] != d.peer && p[0] != d.near && p[0] != d.far && p[0] != boss && (out == nil || r.Intn(2) == 0) {
				out, stay = p[0], p[1]
			}
		}
		if out == nil {
			path(filler)
			break
		}
		remove(d.peer, out)
		path(stay)
		one(false, false)
		if out == d.third {
			d.third = filler
		}
	}
	if r.Intn(4) == 0 {
		// a deeper tree
		var more []*sim.Member
		for k := 3 + r.Intn(10); k > 0; k-- {
			by := []*sim.Member{d.third, d.peer, d.evil}[r.Intn(3)]
			w.Commit(&sim.Spec{By: by, Adds: []*sim.Client{w.NewClient(false)}, AddLib: []bool{false}, Path: r.Intn(3) > 0, Seal: w.RandSeal()})
			more = append(more, w.Members[len(w.Members)-1])
		}
		for k := r.Intn(4); k > 0; k-- {
			path(more[r.Intn(len(more))])
		}
		r.Shuffle(len(more), func(i, j int) { more[i], more[j] = more[j], more[i] })
		for _, m := range more[:r.Intn(len(more)/2+1)] {
			remove(d.peer, m)
		}
	}
	if role == 6 && slices.Contains(w.Members, boss) {
		// the first leaf is blank
		remove(d.peer, boss)
	}
	boss = d.peer
	for d.below() == 0 {
		one(false, true)
	}
	w.Agree()
	return d
}

// badSigKey is a signature key that is not one, and what stands for a
// signature under it; nil keeps the signature made with the real key.
func (d *den) badSigKey(real []byte) (pub, sig []byte) {
	r := d.R
	long := append(append([]byte{}, real...), byte(r.Intn(2)))
	off := append([]byte{}, real...)
	off[len(off)-1-r.Intn(8)] ^= 1 << r.Intn(8)
	pubs := [][]byte{{}, {4}, real[:len(real)-1], real[1:], long, refmls.Bytes(r, len(real)), off, refmls.Bytes(r, 1+r.Intn(200))}
	if len(real) != 32 {
		// compressed, infinity, other format bytes
		pubs = append(pubs, append([]byte{2 + real[len(real)-1]&1}, real[1:(len(real)+1)/2]...), []byte{0}, append([]byte{6}, real[1:]...))
	}
	pub = pubs[r.Intn(len(pubs))]
	switch r.Intn(4) {
	case 0:
		sig = []byte{}
	case 1:
		sig = refmls.Bytes(r, 64)
	case 2:
		_, other := d.S.GenSig(r)
		sig = d.S.SignWithLabel(other, "LeafNodeTBS", []byte("x"))
	}
	return pub, sig
}

// badExts are leaf extensions exactly one of which the capabilities do not
// list.
func (d *den) badExts(caps *refmls.Capabilities) []refmls.Extension {
	r := d.R
	var out []refmls.Extension
	listed := map[uint16]bool{1: true, 2: true, 3: true, 4: true, 5: true}
	for _, t := range caps.Extensions {
		listed[t] = true
	}
	for i := r.Intn(4); i > 0; i-- {
		t := uint16(0xb000 + r.Intn(0x800)*2)
		if listed[t] {
			continue
		}
		listed[t] = true
		caps.Extensions = append(caps.Extensions[:len(caps.Extensions):len(caps.Extensions)], t)
		out = append(out, refmls.Extension{Type: t, Data: refmls.Bytes(r, r.Intn(20))})
	}
	if r.Intn(3) == 0 {
		out = append(out, refmls.Extension{Type: 1, Data: []byte("app")})
	}
	pool := []uint16{0, 6, 7, 0xff, 0x100, 0x101, 0x0a0a, 0xabcd, 0xf000, 0xff01, 0xffff}
	for _, e := range out {
		pool = append(pool, e.Type+1, e.Type-1, e.Type^0x0100, e.Type&0xff)
	}
	for {
		t := pool[r.Intn(len(pool))]
		if !listed[t] {
			out = append(out, refmls.Extension{Type: t, Data: refmls.Bytes(r, r.Intn(5))})
			break
		}
	}
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// badSigKeyOpts and badExtsOpts are key packages with these.
func (d *den) badSigKeyOpts() *refmls.MemberOpts {
	real, priv := d.S.GenSig(d.R)
	pub, sig := d.badSigKey(real)
	o := &refmls.MemberOpts{SigPub: pub, SigPriv: priv}
	if sig != nil {
		o.LeafPost = func(l *refmls.LeafNode) { l.Sig = sig }
		o.KPPost = func(k *refmls.KeyPackage) { k.Sig = sig }
	}
	return o
}

func (d *den) badExtsOpts() *refmls.MemberOpts {
	caps := refmls.DefaultCaps(d.S)
	if d.Cfg.Able {
		caps.Credentials = append(caps.Credentials, 2)
	}
	exts := d.badExts(&caps)
	return &refmls.MemberOpts{Caps: &caps, LeafExts: exts}
}

func val(p *refmls.Proposal) refmls.ProposalOrRef { return refmls.ProposalOrRef{Proposal: p} }

func pAdd(m *refmls.Member) *refmls.Proposal {
	return &refmls.Proposal{Type: refmls.PropAdd, Add: &m.KP}
}

func pRemove(li uint32) *refmls.Proposal {
	return &refmls.Proposal{Type: refmls.PropRemove, Removed: li}
}

func pUpdate(l *refmls.LeafNode) *refmls.Proposal {
	return &refmls.Proposal{Type: refmls.PropUpdate, Update: l}
}

func flip(b []byte, i int) []byte {
	out := append([]byte{}, b...)
	if len(out) > 0 {
		out[i%len(out)] ^= 1 << uint(i%8)
	}
	return out
}

// dress adds unrelated legitimate contents to a key package.
func (d *den) dress(o *refmls.MemberOpts) *refmls.MemberOpts {
	r := d.R
	if r.Intn(2) == 0 {
		return o
	}
	caps := refmls.DefaultCaps(d.S)
	if o.Caps != nil {
		caps = *o.Caps
	}
	caps.Extensions = append([]uint16{0xa0a1, 0xa0a2, 0xa0a3}, caps.Extensions...)
	if r.Intn(2) == 0 {
		o.KPExts = append([]refmls.Extension{{Type: 0xa0a1, Data: refmls.Bytes(r, r.Intn(40))}}, o.KPExts...)
	}
	if r.Intn(2) == 0 {
		o.LeafExts = append([]refmls.Extension{{Type: 0xa0a2, Data: refmls.Bytes(r, r.Intn(40))}}, o.LeafExts...)
	}
	if r.Intn(2) == 0 {
		o.LeafExts = append(o.LeafExts, refmls.Extension{Type: 0xa0a3, Data: []byte{}})
	}
	o.Caps = &caps
	return o
}

// badLife are lifetimes that do not contain the present or have no sensible
// length.
var badLife = []struct {
	name string
	f    func(now uint64) (uint64, uint64)
}{
	{"expired", func(n uint64) (uint64, uint64) { return n - 20*day, n - 2*day }},
	{"expired-an-hour-ago", func(n uint64) (uint64, uint64) { return n - 20*day, n - 3600 }},
	{"expired-lately", func(n uint64) (uint64, uint64) { return n - 7200, n - 120 }},
	{"expired-long-ago", func(n uint64) (uint64, uint64) { return 1, 1000 }},
	{"not-yet-valid", func(n uint64) (uint64, uint64) { return n + 3*day, n + 20*day }},
	{"valid-tomorrow", func(n uint64) (uint64, uint64) { return n + 20*3600, n + 20*day }},
	{"valid-much-later", func(n uint64) (uint64, uint64) { return 1 << 40, 1<<40 + 20*day }},
	{"reversed", func(n uint64) (uint64, uint64) { return n + 5*day, n - 5*day }},
	{"reversed-past", func(n uint64) (uint64, uint64) { return n - 5*day, n - 10*day }},
	{"reversed-future", func(n uint64) (uint64, uint64) { return n + 10*day, n + 5*day }},
	{"endless", func(n uint64) (uint64, uint64) { return 0, 1<<64 - 1 }},
	{"endless-from-now", func(n uint64) (uint64, uint64) { return n - day, 1<<64 - 1 }},
	{"signed-maximum", func(n uint64) (uint64, uint64) { return n - day, 1<<63 - 1 }},
	{"centuries", func(n uint64) (uint64, uint64) { return n - day, n + 400*366*day }},
	{"century", func(n uint64) (uint64, uint64) { return n - day, n + 100*366*day }},
	{"decade", func(n uint64) (uint64, uint64) { return n - 5*366*day, n + 5*366*day }},
	{"end", func(n uint64) (uint64, uint64) { return 1 << 63, 1<<64 - 1 }},
}

func u32(v uint32) *uint32 { return &v }

func unixNow() uint64 { return uint64(time.Now().Unix()) }

const day = 86400
