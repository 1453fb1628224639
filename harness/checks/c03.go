package checks

import (
	"bytes"
	"fmt"

	"verif.local/harness/refmls"
	"verif.local/harness/run"
	"verif.local/harness/sim"
)

func init() {
	run.Register(&run.Check{
		Prop: "C03", Level: "exploration",
		Rule: "distinct (suite, kind of message, framing, kind of sender, attack or altered byte class) forgeries refused by a library member that accepts the original",
		Assumptions: []string{
			"an inside attacker knows all secrets of the group except the signature keys of others",
			"re-encryption of an unaltered message of another member by a member is not an alteration",
			"externally sent proposals and commits are only presented with invalid signatures or unlisted senders",
		},
		MinEvals: 10000, MinSeen: 300,
		Cases: func(tier string, seed int64) []run.Case {
			var out []run.Case
			out = append(out, casesOf("bytes", scale(tier, 16, 240), seed, nil)...)
			out = append(out, casesOf("forge", scale(tier, 64, 400), seed, nil)...)
			out = append(out, casesOf("crowd", scale(tier, 4, 16), seed, nil)...)
			return out
		},
		Run: func(x *run.Ctx) {
			if x.Case.Kind == "crowd" {
				crowdForge(x)
				return
			}
			if x.Case.Kind == "bytes" {
				c03Bytes(x)
			} else {
				c03Forge(x)
			}
		},
	})
}

// letter is a message in flight that the target has not seen.
type letter struct {
	kind string
	raw  []byte
	from *sim.Member
	data []byte // application data
	// commits end the epoch
	apply func()
}

// refuse delivers a forgery to a library member that must refuse it.
func (d *den) refuse(to *sim.Member, what string, raw []byte) {
	x := d.X
	out, err := d.LibProcess(to, raw)
	x.Eval(1)
	x.Why(what, err)
	if err == nil {
		x.Fail("accepted", "library member %s (leaf %d) accepted a forged message: %s (suite %d, tree %s, %d bytes returned; %s)", to.Name, d.LeafOf(to), what, d.S.ID, d.Shape(), len(out), sim.Hex(raw))
	}
	if len(out) != 0 {
		x.Fail("plaintext", "library member %s returned %d bytes with an error: %s", to.Name, len(out), what)
	}
}

// accept delivers the original of a forgery.
func (d *den) accept(to *sim.Member, l *letter) {
	x := d.X
	x.Eval(1)
	out, err := d.LibProcess(to, l.raw)
	if err != nil {
		x.Fail("original-refused", "library member %s refused the original %s after forgeries: %v", to.Name, l.kind, err)
	}
	if !bytes.Equal(out, l.data) {
		x.Fail("original-data", "library member %s returned other data for the original %s", to.Name, l.kind)
	}
}

func fromKind(m *sim.Member) string {
	if m.IsLib() {
		return "lib"
	}
	return "ref"
}

// letters writes one message of every kind; commits come last and only one of
// them can be applied.
func (d *den) letters() (ls []*letter, commits []*letter) {
	r := d.R
	by := []*sim.Member{d.peer, d.third}[r.Intn(2)]
	seal := func(pub bool) *refmls.SealOpts {
		o := d.RandSeal()
		o.Public = pub
		if len(o.AAD) > 60 {
			o.AAD = o.AAD[:60]
		}
		if o.Pad > 64 {
			o.Pad = 64
		}
		return &o
	}
	add := func(kind string, from *sim.Member, raw, data []byte) *letter {
		l := &letter{kind: kind, raw: raw, from: from, data: data}
		ls = append(ls, l)
		return l
	}
	data := d.SmallPayload()
	add("application message", by, by.Ref.App(data, seal(false)), data)
	data = d.SmallPayload()
	add("padded application message", by, by.Ref.App(data, &refmls.SealOpts{Pad: 20, AAD: []byte("aad")}), data)
	data = d.SmallPayload()
	for _, m := range d.Libs() {
		if m != d.far && m != d.near {
			add("application message", m, d.LibApp(m, data), data)
			break
		}
	}
	data = d.SmallPayload()
	add("application message", d.near, d.LibApp(d.near, data), data)
	for _, pub := range []bool{true, false} {
		p := []*refmls.Proposal{
			pRemove(d.LeafOf(d.near)),
			pAdd(d.NewClient(false).M),
			pUpdate(by.Ref.NewUpdateLeaf(nil, nil, nil)),
			{Type: refmls.PropGCE, GCE: []refmls.Extension{{Type: 0xfe10, Data: []byte("e")}}},
		}[r.Intn(4)]
		raw, _ := by.Ref.Propose(p, seal(pub))
		add(fmt.Sprintf("proposal %d public=%v", p.Type, pub), by, raw, nil)
	}
	n := len(ls)
	for _, pub := range []bool{true, false} {
		for _, path := range []bool{true, false} {
			c := d.NewClient(false)
			sp := &sim.Spec{By: by, Adds: []*sim.Client{c}, AddLib: []bool{false}, Path: path, Seal: *seal(pub)}
			res := d.Build(sp)
			l := add(fmt.Sprintf("commit public=%v path=%v", pub, path), by, res.Raw, nil)
			l.apply = func() { d.Apply(sp, res) }
		}
	}
	if d.near.Lib != nil {
		c := d.NewClient(false)
		inv := d.Prepare(d.near, []*sim.Client{c})
		l := add("invitation commit", d.near, inv.Raw, nil)
		l.apply = func() { d.Complete(d.near, inv, []bool{false}) }
	}
	return ls[:n], ls[n:]
}

// c03Bytes alters messages in flight, as an outsider and as a member.
func c03Bytes(x *run.Ctx) {
	d := newDen(x, func(c *sim.Cfg) {
		if len(c.GID) > 64 {
			c.GID = c.GID[:64]
		}
	})
	r := x.Rng
	to := d.far
	for round := 0; round < 2; round++ {
		ls, commits := d.letters()
		for _, l := range append(append([]*letter{}, ls...), commits...) {
			d.alterOutside(to, l)
			d.alterInside(to, l)
			if l.apply == nil {
				d.accept(to, l)
				if l.from != d.near && l.data == nil {
					// proposals are known to everyone
					for _, m := range d.Members {
						if m != to && m != l.from {
							if m.IsLib() {
								d.accept(m, l)
							} else if _, err := m.Ref.Process(l.raw); err != nil {
								panic(err)
							}
						}
					}
				}
			}
		}
		commits[r.Intn(len(commits))].apply()
		d.Agree()
	}
}

func (d *den) alterOutside(to *sim.Member, l *letter) {
	r := d.R
	n := len(l.raw)
	note := func(class string) {
		d.X.Seen("outside|%d|%s|%s|%s", d.S.ID, l.kind, fromKind(l.from), class)
	}
	step := 1
	if n > 300 {
		step = n / 300
	}
	for i := r.Intn(step); i < n; i += 1 + r.Intn(2*step-1) {
		b := append([]byte{}, l.raw...)
		b[i] ^= byte(1 + r.Intn(255))
		d.refuse(to, fmt.Sprintf("%s of %s with byte %d of %d altered", l.kind, l.from.Name, i, n), b)
		note(fmt.Sprint("flip", min(i, 80)/8))
	}
	// the end and the beginning always
	for i := 0; i < min(40, n); i++ {
		for _, at := range []int{i, n - 1 - i} {
			b := append([]byte{}, l.raw...)
			b[at] ^= 1 << uint(r.Intn(8))
			d.refuse(to, fmt.Sprintf("%s of %s with byte %d of %d altered", l.kind, l.from.Name, at, n), b)
		}
	}
	for k := 0; k < 10; k++ {
		i := r.Intn(n)
		d.refuse(to, fmt.Sprintf("%s truncated to %d bytes", l.kind, i), append([]byte{}, l.raw[:i]...))
		d.refuse(to, fmt.Sprintf("%s with %d bytes removed from the end", l.kind, k+1), append([]byte{}, l.raw[:n-k-1]...))
		b := append(append(append([]byte{}, l.raw[:i]...), byte(r.Intn(256))), l.raw[i:]...)
		if !bytes.Equal(b, l.raw) {
			d.refuse(to, fmt.Sprintf("%s with a byte inserted at %d", l.kind, i), b)
		}
		d.refuse(to, fmt.Sprintf("%s with trailing bytes", l.kind), append(append([]byte{}, l.raw...), refmls.Bytes(r, k+1)...))
	}
	note("length")
}

// alterInside is done by a member: what is encrypted is altered and encrypted
// again, tags that all members can compute are recomputed.
func (d *den) alterInside(to *sim.Member, l *letter) {
	r := d.R
	g := d.evil.Ref
	note := func(class string) {
		d.X.Seen("inside|%d|%s|%s|%s", d.S.ID, l.kind, fromKind(l.from), class)
	}
	m, err := refmls.ParseMessage(l.raw)
	if err != nil {
		d.X.Fail("emission", "message of %s does not parse: %v", l.from.Name, err)
	}
	if m.Public != nil {
		n := len(l.raw)
		count := 0
		for k := 0; k < 200; k++ {
			b := append([]byte{}, l.raw...)
			b[4+r.Intn(n-4)] ^= byte(1 + r.Intn(255))
			p, err := refmls.ParseMessage(b)
			if err != nil || p.Public == nil || p.Public.Content.Sender.Type != refmls.SenderMember {
				continue
			}
			tag := p.Public.MemTag
			b = g.Retag(p.Public)
			if bytes.Equal(b, l.raw) {
				continue // only the tag had been altered
			}
			_ = tag
			d.refuse(to, fmt.Sprintf("%s of %s altered and tagged again by a member", l.kind, l.from.Name), b)
			count++
		}
		note(fmt.Sprint("retag", count > 0))
		return
	}
	v, err := g.Reveal(l.raw)
	if err != nil {
		d.X.Fail("emission", "message of %s cannot be decrypted by a conforming member: %v", l.from.Name, err)
	}
	try := func(what string, f func(v *refmls.Revealed)) {
		c := *v
		c.Plain = append([]byte{}, v.Plain...)
		c.Guard = append([]byte{}, v.Guard...)
		f(&c)
		d.refuse(to, fmt.Sprintf("%s of %s: %s by a member", l.kind, l.from.Name, what), g.Conceal(&c))
		note(what)
	}
	n := len(v.Plain)
	step := 1 + n/120
	for i := r.Intn(step); i < n; i += step {
		try("plaintext altered", func(v *refmls.Revealed) { v.Plain[i] ^= byte(1 + r.Intn(255)) })
	}
	for i := 1; i < min(n, 70); i += 3 {
		try("end of plaintext altered", func(v *refmls.Revealed) { v.Plain[n-i] ^= 1 << uint(r.Intn(8)) })
	}
	for _, k := range []int{1, 2, 15, 40} {
		try("plaintext padded with garbage", func(v *refmls.Revealed) {
			b := refmls.Bytes(r, k)
			b[r.Intn(k)] |= 1
			v.Plain = append(v.Plain, b...)
		})
	}
	for _, k := range []int{300, 1500, 70000} {
		for _, at := range []int{k - 1, r.Intn(k)} {
			try("plaintext padded with garbage at length", func(v *refmls.Revealed) {
				b := make([]byte, k)
				b[at] = byte(1 + r.Intn(255))
				v.Plain = append(v.Plain, b...)
			})
		}
	}
	try("plaintext truncated", func(v *refmls.Revealed) {
		// more than any padding
		v.Plain = v.Plain[:n/3]
	})
	try("authenticated data altered", func(v *refmls.Revealed) { v.Head.AAD = append(append([]byte{}, v.Head.AAD...), 'x') })
	if len(v.Head.AAD) > 0 {
		try("authenticated data dropped", func(v *refmls.Revealed) { v.Head.AAD = []byte{} })
	}
	for _, ct := range []uint8{1, 2, 3} {
		if ct != v.Head.Type {
			try("content type changed", func(v *refmls.Revealed) { v.Head.Type = ct })
		}
	}
	for _, li := range g.Tree.Members() {
		if li != v.Leaf {
			try("sender changed", func(v *refmls.Revealed) { v.Leaf = li; v.Gen += 100 })
			try("sender changed, same generation", func(v *refmls.Revealed) { v.Leaf = li })
		}
	}
}

// forgery is an attack of the malicious member; nil when it does not apply.
type forgery struct {
	name string
	f    func(a *attack) []byte
}

// attack makes messages of one kind and framing.
type attack struct {
	*den
	ct  uint8
	pub bool
	as  *sim.Member // member to impersonate
	old []byte      // former signature key of the malicious member
	out *refmls.Group
}

// write creates the attacked kind of message with the given options.
func (a *attack) write(o refmls.SealOpts, h refmls.Hooks) []byte {
	g := a.evil.Ref.Clone()
	o.Public = a.pub
	if o.Gen == nil && !a.pub {
		o.Gen = u32(uint32(50 + a.R.Intn(50)))
	}
	switch a.ct {
	case refmls.ContentApp:
		return g.App([]byte("forged"), &o)
	case refmls.ContentProposal:
		raw, _ := g.Propose(pRemove(a.LeafOf(a.third)), &o)
		return raw
	}
	// without a path the commit does not depend on the sender
	return g.Commit(&refmls.CommitOpts{List: []refmls.ProposalOrRef{val(pAdd(refmls.NewMember(a.S, a.R, nil)))}, Seal: o, H: h}).Raw
}

func forgeries() []forgery {
	var out []forgery
	add := func(name string, f func(a *attack) []byte) { out = append(out, forgery{name, f}) }
	opts := func(name string, f func(a *attack) *refmls.SealOpts) {
		add(name, func(a *attack) []byte {
			o := f(a)
			if o == nil {
				return nil
			}
			return a.write(*o, refmls.Hooks{})
		})
	}
	as := func(a *attack, o refmls.SealOpts) *refmls.SealOpts {
		li := a.LeafOf(a.as)
		o.Content = func(c *refmls.FramedContent) { c.Sender.Index = li }
		return &o
	}
	sig := func(f func(b []byte) []byte) func(*refmls.AuthContent) {
		return func(ac *refmls.AuthContent) { ac.Auth.Sig = f(ac.Auth.Sig) }
	}
	opts("impersonation", func(a *attack) *refmls.SealOpts { return as(a, refmls.SealOpts{}) })
	opts("impersonation with the key package key", func(a *attack) *refmls.SealOpts {
		return as(a, refmls.SealOpts{SigKey: a.evil.C.M.SigPriv})
	})
	for _, n := range []int{0, 1, 32, 63, 64, 65, 70, 96, 104} {
		opts("impersonation with a null signature", func(a *attack) *refmls.SealOpts {
			return as(a, refmls.SealOpts{Auth: sig(func([]byte) []byte { return make([]byte, n) })})
		})
		opts("impersonation with a random signature", func(a *attack) *refmls.SealOpts {
			return as(a, refmls.SealOpts{Auth: sig(func([]byte) []byte { return refmls.Bytes(a.R, n) })})
		})
	}
	opts("impersonation with an ASN.1 null signature", func(a *attack) *refmls.SealOpts {
		return as(a, refmls.SealOpts{Auth: sig(func([]byte) []byte { return []byte{0x30, 6, 2, 1, 0, 2, 1, 0} })})
	})
	opts("impersonation with an ASN.1 one signature", func(a *attack) *refmls.SealOpts {
		return as(a, refmls.SealOpts{Auth: sig(func([]byte) []byte { return []byte{0x30, 6, 2, 1, 1, 2, 1, 1} })})
	})
	opts("sender data names another member", func(a *attack) *refmls.SealOpts {
		if a.pub {
			return nil
		}
		li := a.LeafOf(a.as)
		return &refmls.SealOpts{Leaf: &li, RatchetLeaf: &li}
	})
	opts("signature of a fresh key", func(a *attack) *refmls.SealOpts {
		_, k := a.S.GenSig(a.R)
		return &refmls.SealOpts{SigKey: k}
	})
	opts("signature of a former key", func(a *attack) *refmls.SealOpts { return &refmls.SealOpts{SigKey: a.old} })
	opts("signature truncated", func(a *attack) *refmls.SealOpts {
		return &refmls.SealOpts{Auth: sig(func(b []byte) []byte { return b[:len(b)-1-a.R.Intn(len(b)-1)] })}
	})
	opts("signature extended", func(a *attack) *refmls.SealOpts {
		return &refmls.SealOpts{Auth: sig(func(b []byte) []byte { return append(append([]byte{}, b...), refmls.Bytes(a.R, 1+a.R.Intn(20))...) })}
	})
	opts("signature missing", func(a *attack) *refmls.SealOpts {
		return &refmls.SealOpts{Auth: sig(func(b []byte) []byte { return []byte{} })}
	})
	opts("signature altered", func(a *attack) *refmls.SealOpts {
		return &refmls.SealOpts{Auth: sig(func(b []byte) []byte { return flip(b, 3+a.R.Intn(8*len(b))) })}
	})
	for _, lb := range []string{"LeafNodeTBS", "KeyPackageTBS", "GroupInfoTBS", "FramedContent", "FramedContentTBM"} {
		opts("signature label "+lb, func(a *attack) *refmls.SealOpts { return &refmls.SealOpts{SigLabel: lb} })
	}
	ctx := func(name string, f func(a *attack, c *refmls.GroupContext)) {
		opts("signature for another context: "+name, func(a *attack) *refmls.SealOpts {
			return &refmls.SealOpts{SigCtx: func(c *refmls.GroupContext) { f(a, c) }}
		})
	}
	ctx("epoch", func(a *attack, c *refmls.GroupContext) { c.Epoch++ })
	ctx("earlier epoch", func(a *attack, c *refmls.GroupContext) { c.Epoch-- })
	ctx("group", func(a *attack, c *refmls.GroupContext) { c.GroupID = append(append([]byte{}, c.GroupID...), 'x') })
	ctx("tree hash", func(a *attack, c *refmls.GroupContext) { c.TreeHash = flip(c.TreeHash, a.R.Intn(100)) })
	ctx("transcript hash", func(a *attack, c *refmls.GroupContext) { c.CTH = flip(c.CTH, a.R.Intn(100)) })
	ctx("extensions", func(a *attack, c *refmls.GroupContext) {
		c.Exts = append(append([]refmls.Extension{}, c.Exts...), refmls.Extension{Type: 0xfe77})
	})
	ctx("cipher suite", func(a *attack, c *refmls.GroupContext) { c.Suite ^= 3 })
	add("signature without context", func(a *attack) []byte {
		return a.write(refmls.SealOpts{Auth: func(ac *refmls.AuthContent) {
			tbs := ac.TBS(&a.evil.Ref.Ctx)
			tbs = tbs[:len(tbs)-len(a.evil.Ref.Ctx.Bytes())]
			ac.Auth.Sig = a.S.SignWithLabel(a.evil.Ref.SigPriv, "FramedContentTBS", tbs)
		}}, refmls.Hooks{})
	})
	add("signature for other content", func(a *attack) []byte {
		return a.write(refmls.SealOpts{Auth: func(ac *refmls.AuthContent) {
			o := *ac
			o.Content.AAD = []byte("other")
			ac.Auth.Sig = a.evil.Ref.SignContent(&o, a.evil.Ref.SigPriv)
		}}, refmls.Hooks{})
	})
	opts("signature for the other framing", func(a *attack) *refmls.SealOpts {
		w := uint16(refmls.WirePublic)
		if a.pub {
			w = refmls.WirePrivate
		}
		return &refmls.SealOpts{SigWire: w}
	})
	opts("authentic but for another epoch", func(a *attack) *refmls.SealOpts {
		return &refmls.SealOpts{Content: func(c *refmls.FramedContent) { c.Epoch++ }}
	})
	opts("authentic but for an earlier epoch", func(a *attack) *refmls.SealOpts {
		return &refmls.SealOpts{Content: func(c *refmls.FramedContent) { c.Epoch-- }}
	})
	opts("authentic but for another group", func(a *attack) *refmls.SealOpts {
		return &refmls.SealOpts{Content: func(c *refmls.FramedContent) { c.GroupID = append(append([]byte{}, c.GroupID...), 0) }}
	})
	opts("authentic but for a shorter group identifier", func(a *attack) *refmls.SealOpts {
		return &refmls.SealOpts{Content: func(c *refmls.FramedContent) {
			if len(c.GroupID) > 0 {
				c.GroupID = c.GroupID[:len(c.GroupID)-1]
			} else {
				c.GroupID = []byte{0}
			}
		}}
	})
	for _, li := range []uint32{64, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		opts("sender outside of the tree", func(a *attack) *refmls.SealOpts {
			return &refmls.SealOpts{RatchetLeaf: u32(a.evil.Ref.MyLeaf), Content: func(c *refmls.FramedContent) { c.Sender.Index = li }}
		})
	}
	opts("sender is a blank leaf", func(a *attack) *refmls.SealOpts {
		li, ok := a.blankLeaf()
		if !ok {
			return nil
		}
		return &refmls.SealOpts{Content: func(c *refmls.FramedContent) { c.Sender.Index = li }}
	})

	// public framing
	pub := func(name string, f func(a *attack) *refmls.SealOpts) {
		opts(name, func(a *attack) *refmls.SealOpts {
			if !a.pub {
				return nil
			}
			return f(a)
		})
	}
	tag := func(name string, f func(a *attack, b []byte) []byte) {
		pub("membership tag "+name, func(a *attack) *refmls.SealOpts {
			return &refmls.SealOpts{MemTag: func(b []byte) []byte { return f(a, b) }}
		})
	}
	tag("missing", func(a *attack, b []byte) []byte { return []byte{} })
	tag("null", func(a *attack, b []byte) []byte { return make([]byte, len(b)) })
	tag("random", func(a *attack, b []byte) []byte { return refmls.Bytes(a.R, len(b)) })
	tag("truncated", func(a *attack, b []byte) []byte { return b[:len(b)-1] })
	tag("half", func(a *attack, b []byte) []byte { return b[:len(b)/2] })
	tag("of one byte", func(a *attack, b []byte) []byte { return b[:1] })
	tag("extended", func(a *attack, b []byte) []byte { return append(append([]byte{}, b...), 0) })
	for k := 0; k < 6; k++ {
		tag("altered", func(a *attack, b []byte) []byte { return flip(b, a.R.Intn(8*len(b))) })
	}
	tag("altered at the end", func(a *attack, b []byte) []byte { return flip(b, 8*len(b)-1) })
	for _, lb := range []string{"confirm", "encryption", "sender data", "authentication", "exporter", "external", "resumption", "init"} {
		pub("membership key of "+lb, func(a *attack) *refmls.SealOpts { return &refmls.SealOpts{MemKey: a.evil.Ref.Secret(lb)} })
	}
	pub("membership key of zeros", func(a *attack) *refmls.SealOpts { return &refmls.SealOpts{MemKey: make([]byte, a.S.Nh())} })
	pub("membership key of the previous epoch", func(a *attack) *refmls.SealOpts {
		return &refmls.SealOpts{MemKey: a.out.Secret("membership")}
	})
	add("membership tag over other authentication data", func(a *attack) []byte {
		if !a.pub {
			return nil
		}
		raw := a.write(refmls.SealOpts{}, refmls.Hooks{})
		m, _ := refmls.ParseMessage(raw)
		o := *m.Public
		o.Auth.Sig = flip(o.Auth.Sig, 8)
		a.evil.Ref.Retag(&o)
		m.Public.MemTag = o.MemTag
		return m.Bytes()
	})
	add("membership tag over other content", func(a *attack) []byte {
		if !a.pub {
			return nil
		}
		raw := a.write(refmls.SealOpts{}, refmls.Hooks{})
		m, _ := refmls.ParseMessage(raw)
		o := *m.Public
		o.Content.AAD = []byte("other")
		a.evil.Ref.Retag(&o)
		m.Public.MemTag = o.MemTag
		return m.Bytes()
	})
	for _, ty := range []uint8{0, 2, 3, 4, 5, 255} {
		add(fmt.Sprintf("sender type %d", ty), func(a *attack) []byte {
			if !a.pub {
				return nil
			}
			// an outsider has no right to speak
			_, key := a.S.GenSig(a.R)
			if ty == 2 || a.R.Intn(2) == 0 {
				key = nil // the malicious member itself
			}
			return a.write(refmls.SealOpts{SigKey: key, Content: func(c *refmls.FramedContent) {
				c.Sender.Type = ty
				c.Sender.Index = uint32(a.R.Intn(2))
			}}, refmls.Hooks{})
		})
	}

	// commits
	conf := func(name string, f func(a *attack, b []byte) []byte) {
		add("confirmation tag "+name, func(a *attack) []byte {
			if a.ct != refmls.ContentCommit {
				return nil
			}
			return a.write(refmls.SealOpts{}, refmls.Hooks{ConfTag: func(b []byte) []byte { return f(a, b) }})
		})
	}
	conf("missing", func(a *attack, b []byte) []byte { return []byte{} })
	conf("null", func(a *attack, b []byte) []byte { return make([]byte, len(b)) })
	conf("truncated", func(a *attack, b []byte) []byte { return b[:len(b)-1] })
	conf("of one byte", func(a *attack, b []byte) []byte { return b[:1] })
	conf("extended", func(a *attack, b []byte) []byte { return append(append([]byte{}, b...), 0) })
	conf("altered", func(a *attack, b []byte) []byte { return flip(b, a.R.Intn(8*len(b))) })
	conf("altered at the end", func(a *attack, b []byte) []byte { return flip(b, 8*len(b)-1) })
	conf("of the current epoch", func(a *attack, b []byte) []byte { return append([]byte{}, a.evil.Ref.ConfTag...) })
	conf("with the current key", func(a *attack, b []byte) []byte {
		return a.S.MAC(a.evil.Ref.Secret("confirm"), a.evil.Ref.Ctx.CTH)
	})
	add("confirmation tag absent", func(a *attack) []byte {
		if a.ct != refmls.ContentCommit || a.pub {
			return nil
		}
		return a.write(refmls.SealOpts{Plain: func(b []byte) []byte { return b[:len(b)-a.S.Nh()-1] }}, refmls.Hooks{})
	})

	// private framing
	priv := func(name string, f func(a *attack) *refmls.SealOpts) {
		opts(name, func(a *attack) *refmls.SealOpts {
			if a.pub {
				return nil
			}
			return f(a)
		})
	}
	priv("sender data under another key", func(a *attack) *refmls.SealOpts {
		return &refmls.SealOpts{SDSecret: a.evil.Ref.Secret("encryption")}
	})
	priv("sender data of the previous epoch", func(a *attack) *refmls.SealOpts {
		return &refmls.SealOpts{SDSecret: a.out.Secret("sender data")}
	})
	priv("sender data truncated", func(a *attack) *refmls.SealOpts {
		return &refmls.SealOpts{SDMod: func(b []byte) []byte { return b[:len(b)-1-a.R.Intn(11)] }}
	})
	priv("sender data extended", func(a *attack) *refmls.SealOpts {
		return &refmls.SealOpts{SDMod: func(b []byte) []byte { return append(append([]byte{}, b...), 0) }}
	})
	priv("other guard", func(a *attack) *refmls.SealOpts {
		return &refmls.SealOpts{SDMod: func(b []byte) []byte { return append(append([]byte{}, b[:11]...), b[11]^1) }}
	})
	priv("other generation", func(a *attack) *refmls.SealOpts {
		return &refmls.SealOpts{SDMod: func(b []byte) []byte {
			out := append([]byte{}, b...)
			out[7] ^= 1
			return out
		}}
	})
	priv("the other ratchet", func(a *attack) *refmls.SealOpts {
		lb := "application"
		if a.ct == refmls.ContentApp {
			lb = "handshake"
		}
		return &refmls.SealOpts{RatchetLabel: lb}
	})
	priv("the ratchet of another member", func(a *attack) *refmls.SealOpts {
		li := a.LeafOf(a.as)
		return &refmls.SealOpts{RatchetLeaf: &li}
	})
	for _, n := range []int{1, 16, 200} {
		priv("padding with garbage", func(a *attack) *refmls.SealOpts {
			b := make([]byte, n)
			b[a.R.Intn(n)] = byte(1 + a.R.Intn(255))
			return &refmls.SealOpts{PadBytes: b}
		})
	}
	head := func(name string, f func(a *attack, m *refmls.PrivateMessage)) {
		priv("altered outside: "+name, func(a *attack) *refmls.SealOpts {
			return &refmls.SealOpts{AAD: []byte("aad"), Private: func(m *refmls.PrivateMessage) { f(a, m) }}
		})
	}
	head("authenticated data", func(a *attack, m *refmls.PrivateMessage) { m.AAD = []byte("aae") })
	head("authenticated data dropped", func(a *attack, m *refmls.PrivateMessage) { m.AAD = []byte{} })
	head("content type", func(a *attack, m *refmls.PrivateMessage) { m.Type = m.Type%3 + 1 })
	head("epoch", func(a *attack, m *refmls.PrivateMessage) { m.Epoch++ })
	head("group", func(a *attack, m *refmls.PrivateMessage) { m.GroupID = append(append([]byte{}, m.GroupID...), 1) })
	head("tag of the ciphertext", func(a *attack, m *refmls.PrivateMessage) {
		m.Ciphertext = flip(m.Ciphertext, 8*len(m.Ciphertext)-1-a.R.Intn(128))
	})
	head("tag of the sender data", func(a *attack, m *refmls.PrivateMessage) {
		m.EncSenderData = flip(m.EncSenderData, 8*len(m.EncSenderData)-1-a.R.Intn(128))
	})
	head("tag of the ciphertext dropped", func(a *attack, m *refmls.PrivateMessage) { m.Ciphertext = m.Ciphertext[:len(m.Ciphertext)-16] })
	head("empty ciphertext", func(a *attack, m *refmls.PrivateMessage) { m.Ciphertext = []byte{} })
	head("empty sender data", func(a *attack, m *refmls.PrivateMessage) { m.EncSenderData = []byte{} })

	add("public application message", func(a *attack) []byte {
		if a.pub || a.ct != refmls.ContentApp {
			return nil
		}
		return a.evil.Ref.Clone().App([]byte("in the clear"), &refmls.SealOpts{Public: true})
	})
	return out
}

// reframe moves the content and signature of an authentic message into the
// other framing.
func (d *den) reframe(raw []byte) []byte {
	g := d.evil.Ref
	m, err := refmls.ParseMessage(raw)
	if err != nil {
		d.X.Fail("emission", "message does not parse: %v", err)
	}
	if m.Public != nil {
		c := &m.Public.Content
		return g.Conceal(&refmls.Revealed{
			Head: refmls.PrivateMessage{GroupID: c.GroupID, Epoch: c.Epoch, Type: c.Type, AAD: c.AAD},
			Leaf: c.Sender.Index, Gen: 200 + uint32(d.R.Intn(50)), Guard: refmls.Bytes(d.R, 4), Plain: c.Body(&m.Public.Auth),
		})
	}
	v, err := g.Reveal(raw)
	if err != nil {
		d.X.Fail("emission", "message cannot be decrypted by a conforming member: %v", err)
	}
	c := refmls.FramedContent{GroupID: v.Head.GroupID, Epoch: v.Head.Epoch, Type: v.Head.Type, AAD: v.Head.AAD,
		Sender: refmls.Sender{Type: refmls.SenderMember, Index: v.Leaf}}
	a, err := c.ReadBody(v.Plain)
	if err != nil {
		d.X.Fail("emission", "content does not parse: %v", err)
	}
	return g.Retag(&refmls.PublicMessage{Content: c, Auth: *a})
}

// splice puts the content of one message under the signature of another.
func (d *den) splice(a, b []byte) []byte {
	g := d.evil.Ref
	ma, _ := refmls.ParseMessage(a)
	mb, _ := refmls.ParseMessage(b)
	if (ma.Public != nil) != (mb.Public != nil) {
		return nil
	}
	if ma.Public != nil {
		p := *ma.Public
		p.Auth.Sig = mb.Public.Auth.Sig
		return g.Retag(&p)
	}
	va, err1 := g.Reveal(a)
	vb, err2 := g.Reveal(b)
	if err1 != nil || err2 != nil {
		return nil
	}
	ca := refmls.FramedContent{Type: va.Head.Type}
	cb := refmls.FramedContent{Type: vb.Head.Type}
	aa, err1 := ca.ReadBody(va.Plain)
	ab, err2 := cb.ReadBody(vb.Plain)
	if err1 != nil || err2 != nil {
		return nil
	}
	aa.Sig = ab.Sig
	va.Plain = ca.Body(aa)
	va.Gen += 300
	return g.Conceal(va)
}

func c03Forge(x *run.Ctx) {
	d := newDen(x, nil)
	r := x.Rng
	old := d.evil.Ref.SigPriv
	d.Commit(&sim.Spec{By: d.evil, Path: true, Seal: d.RandSeal(), NewSig: true})
	prev := d.evil.Ref.Clone()
	d.Commit(&sim.Spec{By: d.peer, Path: true, Seal: d.RandSeal(), NewSig: r.Intn(2) == 0})
	targets := []*sim.Member{d.near, d.far}
	for _, ct := range []uint8{refmls.ContentApp, refmls.ContentProposal, refmls.ContentCommit} {
		for _, pub := range []bool{false, true} {
			if pub && ct == refmls.ContentApp {
				continue
			}
			a := &attack{den: d, ct: ct, pub: pub, old: old, out: prev}
			var as []*sim.Member
			for _, m := range d.Members {
				if m != d.evil {
					as = append(as, m)
				}
			}
			for _, fo := range forgeries() {
				a.as = as[r.Intn(len(as))]
				if r.Intn(3) == 0 { // in the name of a receiver
					a.as = targets[r.Intn(len(targets))]
				}
				raw := fo.f(a)
				if raw == nil {
					x.Stat("inapplicable", 1)
					continue
				}
				g := d.third.Ref.Clone()
				g.Lenient = false
				if _, err := g.Process(raw); err == nil {
					panic("forgery " + fo.name + " is not hostile: the reference accepts it")
				}
				for _, to := range targets {
					d.refuse(to, fmt.Sprintf("%s (content type %d, public=%v, in the name of %s)", fo.name, ct, pub, a.as.Name), raw)
				}
				x.Seen("forge|%d|%d|%v|%s|%s", d.S.ID, ct, pub, fromKind(a.as), fo.name)
			}
		}
	}
	// authentic messages of honest members in another framing or mixed up
	ls, commits := d.letters()
	all := append(append([]*letter{}, ls...), commits...)
	for _, l := range all {
		d.refuse(d.far, l.kind+" reframed", d.reframe(l.raw))
		x.Seen("reframe|%d|%s|%s", d.S.ID, l.kind, fromKind(l.from))
		for _, o := range all {
			if o == l || bytes.Equal(o.raw, l.raw) {
				continue
			}
			if raw := d.splice(l.raw, o.raw); raw != nil {
				d.refuse(d.far, l.kind+" with the signature of "+o.kind, raw)
				x.Seen("splice|%d|%s|%s", d.S.ID, l.kind, o.kind)
			}
		}
	}
	d.Agree()
	for _, l := range ls {
		d.accept(d.far, l)
	}
	// sent by the malicious member under its real name it is fine
	for _, ct := range []uint8{refmls.ContentApp, refmls.ContentProposal} {
		raw := (&attack{den: d, ct: ct}).write(refmls.SealOpts{}, refmls.Hooks{})
		if _, err := d.LibProcess(d.far, raw); err != nil {
			x.Fail("honest-refused", "library member refused an authentic message of the sender used in forgeries: %v", err)
		}
	}
	d.Commit(&sim.Spec{By: d.evil, Path: true, Seal: d.RandSeal()})
	d.Agree()
}
