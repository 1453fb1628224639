package checks

import (
	"fmt"
	"slices"
	"sort"

	mls "github.com/emersion/go-mls"
	"verif.local/harness/refmls"
	"verif.local/harness/run"
	"verif.local/harness/sim"
)

// forged is an invitation that a malicious inviter prepares. Everything that
// is not replaced is computed honestly from what is.
type forged struct {
	d      *den
	v      *sim.Client
	res    *refmls.CommitResult
	s      *refmls.Suite // of the welcome
	ctx    refmls.GroupContext
	tree   refmls.Tree
	raw    []byte // encoded tree (nil: tree)
	noTree bool
	hash   []byte // tree hash (nil: of tree)
	tag    func([]byte) []byte
	signer uint32
	key    []byte
	label  string
	exts   []refmls.Extension
	gs     refmls.GroupSecrets
	joiner []byte // used by the inviter (gs.Joiner is what is sent)
	giPost func(*refmls.GroupInfo)
	giRaw  func([]byte) []byte
	gsRaw  func([]byte) []byte
	seal   func(init, info, secrets []byte) refmls.HPKECt
	wel    func(*refmls.Welcome)
}

// forge lets the malicious member invite v.
func (d *den) forge(v *sim.Client, path bool, h refmls.Hooks, mod func(*forged)) *refmls.Welcome {
	f := &forged{d: d, v: v, s: d.S}
	h.Secrets = func(i int, gs *refmls.GroupSecrets) { f.gs = *gs }
	f.res = d.commit([]refmls.ProposalOrRef{val(pAdd(v.M))}, path, h)
	n := f.res.Next
	f.ctx, f.tree, f.signer, f.key, f.label, f.joiner = n.Ctx, n.Tree.Clone(), n.MyLeaf, n.SigPriv, "GroupInfoTBS", n.Joiner
	if d.anyEpoch && d.R.Intn(4) == 0 {
		f.ctx.Epoch = []uint64{0, 1, 1, 2, 3, 1 << 31, 1<<64 - 2}[d.R.Intn(7)]
	}
	if mod != nil {
		mod(f)
	}
	return f.build()
}

// forge2 invites v along with c without a path, so that both are unmerged, and
// lists the unmerged leaves of the inner nodes in reverse.
func (d *den) forge2(v, c *sim.Client, mod func(*forged)) *refmls.Welcome {
	f := &forged{d: d, v: v, s: d.S}
	h := refmls.Hooks{Secrets: func(i int, gs *refmls.GroupSecrets) { f.gs = *gs }}
	f.res = d.commit([]refmls.ProposalOrRef{val(pAdd(c.M)), val(pAdd(v.M))}, false, h)
	n := f.res.Next
	f.ctx, f.tree, f.signer, f.key, f.label, f.joiner = n.Ctx, n.Tree.Clone(), n.MyLeaf, n.SigPriv, "GroupInfoTBS", n.Joiner
	if t := f.tree[refmls.RootOf(len(f.tree))]; t != nil {
		u := t.Parent.Unmerged
		for i, j := 0, len(u)-1; i < j; i, j = i+1, j-1 {
			u[i], u[j] = u[j], u[i]
		}
	}
	mod(f)
	return f.build()
}

func (f *forged) build() *refmls.Welcome {
	s := f.s
	raw := f.raw
	if raw == nil {
		raw = f.tree.Bytes()
	}
	f.ctx.TreeHash = f.hash
	if f.hash == nil {
		f.ctx.TreeHash = f.tree.RootHash(s)
	}
	ws, epoch := refmls.EpochSecrets(s, f.joiner, refmls.PSKSecret(s, nil, nil), &f.ctx)
	tag := s.MAC(s.DeriveSecret(epoch, "confirm"), f.ctx.CTH)
	if f.tag != nil {
		tag = f.tag(tag)
	}
	gi := &refmls.GroupInfo{Ctx: f.ctx, Exts: f.exts, ConfTag: tag, Signer: f.signer}
	if !f.noTree {
		gi.Exts = append(gi.Exts, refmls.Extension{Type: 2, Data: raw})
	}
	gi.Sig = s.SignWithLabel(f.key, f.label, gi.TBS())
	if f.giPost != nil {
		f.giPost(gi)
	}
	var w refmls.W
	gi.Put(&w)
	info := w.B
	if f.giRaw != nil {
		info = f.giRaw(info)
	}
	out := &refmls.Welcome{Suite: s.ID, EncGroupInfo: refmls.SealGroupInfo(s, ws, info)}
	var w2 refmls.W
	f.gs.Put(&w2)
	sec := w2.B
	if f.gsRaw != nil {
		sec = f.gsRaw(sec)
	}
	var ct refmls.HPKECt
	if f.seal != nil {
		ct = f.seal(f.v.M.KP.InitKey, out.EncGroupInfo, sec)
	} else {
		var err error
		ct, err = s.EncryptWithLabel(f.v.M.KP.InitKey, "Welcome", out.EncGroupInfo, sec)
		if err != nil {
			panic(err)
		}
	}
	out.Secrets = []refmls.EncGroupSecrets{{Ref: f.v.M.S.KPRef(&f.v.M.KP), Ct: ct}}
	if f.wel != nil {
		f.wel(out)
	}
	return out
}

type joinRule struct {
	name string
	f    func(d *den, v *sim.Client) *refmls.Welcome
	// key package of the victim (nil: an ordinary one)
	victim func(d *den) *sim.Client
}

func init() {
	run.Register(&run.Check{
		Prop: "C06", Level: "exploration",
		Rule: "distinct (suite, tree shape, broken rule, with or without path) hostile Welcomes that were correctly encrypted to the joiner, while an honest Welcome for the same tree was accepted",
		Assumptions: []string{
			"the malicious inviter knows all secrets of the group, but not the signature keys of others",
			"required_capabilities, credential validation and trees delivered out of band are not covered",
		},
		MinEvals: 1000, MinSeen: 300,
		Cases: func(tier string, seed int64) []run.Case {
			var out []run.Case
			n := (len(joinRules()) + 19) / 20
			for chunk := 0; chunk < n; chunk++ {
				out = append(out, casesOf("rules", scale(tier, 36, 144), seed, map[string]int64{"chunk": int64(chunk)})...)
			}
			out = append(out, casesOf("crowd", scale(tier, 4, 16), seed, nil)...)
			return out
		},
		Run: func(x *run.Ctx) {
			if x.Case.Kind == "crowd" {
				crowdJoin(x)
				return
			}
			d := newDen(x, nil)
			rules := joinRules()
			lo := x.P("chunk") * 20
			rules = rules[lo:min(lo+20, len(rules))]
			c06Honest(d)
			x.Rng.Shuffle(len(rules), func(i, j int) { rules[i], rules[j] = rules[j], rules[i] })
			for _, ru := range rules {
				c06Try(d, ru)
			}
			c06Honest(d)
		},
	})
}

// tryJoin joins with the library.
func tryJoin(x *run.Ctx, c *sim.Client, raw []byte) (g *mls.Group, err error) {
	x.Lib("joining", func() {
		var wel *mls.Welcome
		wel, err = mls.UnmarshalWelcome(raw)
		if err == nil {
			g, err = mls.GroupFromWelcome(wel, c.KPP)
		}
	})
	return
}

// c06Honest checks that honest invitations of the same kind are accepted.
func c06Honest(d *den) {
	x := d.X
	for _, path := range []bool{false, true} {
		v := d.NewClient(true)
		f := (*forged)(nil)
		raw := d.forge(v, path, refmls.Hooks{}, func(g *forged) {
			f = g
			f.exts = []refmls.Extension{{Type: 0xa7a7, Data: []byte("other extension")}}
		}).MsgBytes()
		g, err := tryJoin(x, v, raw)
		x.Eval(1)
		if err != nil {
			x.Fail("join", "library client cannot join from a valid Welcome: %v (path=%v, suite %d, tree %s)", err, path, d.S.ID, d.Shape())
		}
		msg := f.res.Next.App([]byte("welcome"), nil)
		var out []byte
		x.Lib("processing", func() { out, err = g.UnmarshalAndProcessMessage(msg) })
		if err != nil || string(out) != "welcome" {
			x.Fail("join", "new member cannot read the first message: %v", err)
		}
	}
}

func c06Try(d *den, ru joinRule) {
	x := d.X
	var v *sim.Client
	if ru.victim != nil {
		v = ru.victim(d)
	} else {
		v = d.NewClient(true)
	}
	if v == nil {
		x.Stat("inapplicable", 1)
		return
	}
	d.anyEpoch = true
	w := ru.f(d, v)
	d.anyEpoch = false
	if w == nil {
		x.Stat("inapplicable", 1)
		return
	}
	raw := w.MsgBytes()
	if p, err := refmls.ParseWelcome(raw); err == nil {
		if _, err := refmls.Join(p, v.M, &refmls.JoinOpts{Rng: d.R, Now: unixNow()}); err == nil {
			panic("rule " + ru.name + " is not hostile: the reference accepts it")
		}
	}
	g, err := tryJoin(x, v, raw)
	x.Eval(1)
	x.Why(ru.name, err)
	if err == nil {
		x.Fail("joined:"+ru.name, "library client joined from an invalid Welcome: %s (suite %d, tree %s)", ru.name, d.S.ID, d.Shape())
	}
	if g != nil {
		x.Fail("group-and-error", "joining returned an error and a group: %s", ru.name)
	}
	x.Seen("rule|%d|%s|%s", d.S.ID, ru.name, d.Shape())
}

// emptyLeaf finds a blank leaf of a tree.
func emptyLeaf(t refmls.Tree) (uint32, bool) {
	for li := uint32(0); li < t.NumLeaves(); li++ {
		if t.Leaf(li) == nil {
			return li, true
		}
	}
	return 0, false
}

func isAncestor(x int, li uint32, width int) bool {
	for _, p := range refmls.DirectPath(2*int(li), width) {
		if p == x {
			return true
		}
	}
	return false
}

// offPath lists the filled inner nodes that are not above leaf li.
func offPath(t refmls.Tree, li uint32) []int {
	var out []int
	for x, n := range t {
		if n != nil && n.Parent != nil && !isAncestor(x, li, len(t)) {
			out = append(out, x)
		}
	}
	return out
}

// signAgain makes the malicious member sign its leaf anew.
func (f *forged) signAgain() {
	me := 2 * int(f.signer)
	l := f.tree[me].Leaf.Clone()
	l.Sig = f.s.SignWithLabel(f.key, "LeafNodeTBS", l.TBS(f.ctx.GroupID, f.signer))
	f.tree[me] = &refmls.Node{Leaf: l}
}

// rehash recomputes the parent hashes along the malicious member's path from
// the keys and unmerged leaves now in the tree, whatever they are, leaving out
// blank nodes.
func (f *forged) rehash() {
	me := 2 * int(f.signer)
	var path, copath []int
	x := me
	for p := refmls.ParentOf(x, len(f.tree)); p >= 0; p = refmls.ParentOf(p, len(f.tree)) {
		if f.tree[p] != nil {
			path = append(path, p)
			copath = append(copath, refmls.SiblingOf(x, len(f.tree)))
		}
		x = p
	}
	ph := []byte{}
	for i := len(path) - 1; i >= 0; i-- {
		n := f.tree[path[i]].Parent
		n.ParentHash = ph
		ex := map[uint32]bool{}
		for _, u := range n.Unmerged {
			ex[u] = true
		}
		var w refmls.W
		w.Vec(n.EncKey)
		w.Vec(n.ParentHash)
		w.Vec(f.tree.Hash(f.s, copath[i], ex))
		ph = f.s.H(w.B)
	}
	l := f.tree[me].Leaf.Clone()
	l.ParentHash = ph
	f.tree[me] = &refmls.Node{Leaf: l}
	f.signAgain()
}

// swapLeaf replaces the leaf of an honest member as if it had been updated
// before the commit, so that the parent hashes are right.
func swapLeaf(o func(d *den) *refmls.MemberOpts) func(d *den, v *sim.Client) *refmls.Welcome {
	return func(d *den, v *sim.Client) *refmls.Welcome {
		op := o(d)
		if op == nil {
			return nil
		}
		if op.Identity == nil {
			op.Identity = []byte("replaced")
		}
		m := refmls.NewMember(d.S, d.R, d.dress(op))
		li := d.LeafOf(d.third)
		if d.R.Intn(2) == 0 && !d.Cfg.Able {
			li = d.LeafOf(d.far)
		}
		return d.forge(v, true, refmls.Hooks{Tree: func(t *refmls.Tree) { t.Update(li, &m.KP.Leaf) }}, nil)
	}
}

// tweak replaces details of an otherwise honest Welcome.
func tweak(mod func(f *forged)) func(d *den, v *sim.Client) *refmls.Welcome {
	return func(d *den, v *sim.Client) *refmls.Welcome {
		return d.forge(v, d.R.Intn(2) == 0, refmls.Hooks{}, mod)
	}
}

// tweakPath does so for a commit with a path; mod may decline.
func tweakPath(h func(d *den) refmls.Hooks, mod func(f *forged) bool) func(d *den, v *sim.Client) *refmls.Welcome {
	return func(d *den, v *sim.Client) *refmls.Welcome {
		ok := true
		var hk refmls.Hooks
		if h != nil {
			hk = h(d)
		}
		w := d.forge(v, true, hk, func(f *forged) {
			if mod != nil {
				ok = mod(f)
			}
		})
		if !ok {
			return nil
		}
		return w
	}
}

func joinRules() []joinRule {
	var out []joinRule
	add := func(name string, f func(d *den, v *sim.Client) *refmls.Welcome) {
		out = append(out, joinRule{name: name, f: f})
	}

	// group info: signature and signer
	add("signature-flipped", tweak(func(f *forged) {
		f.giPost = func(g *refmls.GroupInfo) { g.Sig = flip(g.Sig, f.d.R.Intn(1000)) }
	}))
	add("signature-empty", tweak(func(f *forged) { f.giPost = func(g *refmls.GroupInfo) { g.Sig = []byte{} } }))
	add("signature-short", tweak(func(f *forged) { f.giPost = func(g *refmls.GroupInfo) { g.Sig = g.Sig[:len(g.Sig)-1] } }))
	add("signature-long", tweak(func(f *forged) { f.giPost = func(g *refmls.GroupInfo) { g.Sig = append(g.Sig, 0) } }))
	add("signature-by-fresh-key", tweak(func(f *forged) { _, f.key = f.s.GenSig(f.d.R) }))
	add("signature-by-other-member", tweak(func(f *forged) { f.key = f.d.peer.Ref.SigPriv }))
	add("signature-label", tweak(func(f *forged) { f.label = "GroupInfo" }))
	add("signature-label-leaf", tweak(func(f *forged) { f.label = "LeafNodeTBS" }))
	add("signer-other-member", tweak(func(f *forged) { f.signer = f.d.LeafOf(f.d.peer) }))
	add("signer-joiner", tweak(func(f *forged) { f.signer = f.res.Adds[0] }))
	add("signer-blank", tweak(func(f *forged) {
		if li, ok := emptyLeaf(f.tree); ok {
			f.signer = li
		} else {
			f.signer = f.tree.NumLeaves()
		}
	}))
	add("signer-out-of-range", tweak(func(f *forged) { f.signer = f.tree.NumLeaves() + uint32(f.d.R.Intn(5)) }))
	add("signer-wrapped", tweak(func(f *forged) { f.signer |= 1 << 31 }))
	add("signer-maximal", tweak(func(f *forged) { f.signer = 1<<32 - 1 }))
	post := func(name string, m func(g *refmls.GroupInfo)) {
		add("after-signature:"+name, tweak(func(f *forged) { f.giPost = m }))
	}
	post("epoch", func(g *refmls.GroupInfo) { g.Ctx.Epoch++ })
	post("group-id", func(g *refmls.GroupInfo) { g.Ctx.GroupID = append(append([]byte{}, g.Ctx.GroupID...), 1) })
	post("transcript", func(g *refmls.GroupInfo) { g.Ctx.CTH = flip(g.Ctx.CTH, 3) })
	post("context-extensions", func(g *refmls.GroupInfo) {
		g.Ctx.Exts = append(append([]refmls.Extension{}, g.Ctx.Exts...), refmls.Extension{Type: 0xfe99, Data: []byte{1}})
	})
	post("tag", func(g *refmls.GroupInfo) { g.ConfTag = flip(g.ConfTag, 3) })
	post("extensions", func(g *refmls.GroupInfo) {
		g.Exts = append(append([]refmls.Extension{}, g.Exts...), refmls.Extension{Type: 0xfe99, Data: []byte{1}})
	})
	post("extension-order", func(g *refmls.GroupInfo) {
		g.Exts = append([]refmls.Extension{{Type: 0xfe99, Data: []byte{}}}, g.Exts...)
	})

	// confirmation tag, signed by the inviter
	add("tag-flipped", tweak(func(f *forged) { f.tag = func(t []byte) []byte { return flip(t, f.d.R.Intn(1000)) } }))
	add("tag-last-byte", tweak(func(f *forged) { f.tag = func(t []byte) []byte { return flip(t, len(t)-1) } }))
	add("tag-empty", tweak(func(f *forged) { f.tag = func(t []byte) []byte { return []byte{} } }))
	add("tag-truncated", tweak(func(f *forged) { f.tag = func(t []byte) []byte { return t[:len(t)-1] } }))
	add("tag-extended", tweak(func(f *forged) { f.tag = func(t []byte) []byte { return append(t, 0) } }))
	add("tag-zero", tweak(func(f *forged) { f.tag = func(t []byte) []byte { return make([]byte, len(t)) } }))
	signedCtx := func(name string, m func(c *refmls.GroupContext)) {
		add("tag-for-other:"+name, tweak(func(f *forged) {
			f.giPost = func(g *refmls.GroupInfo) {
				m(&g.Ctx)
				g.Sig = f.s.SignWithLabel(f.key, f.label, g.TBS())
			}
		}))
	}
	signedCtx("epoch", func(c *refmls.GroupContext) { c.Epoch++ })
	signedCtx("epoch-high-bit", func(c *refmls.GroupContext) { c.Epoch ^= 1 << 63 })
	signedCtx("transcript", func(c *refmls.GroupContext) { c.CTH = flip(c.CTH, 5) })
	signedCtx("transcript-empty", func(c *refmls.GroupContext) { c.CTH = []byte{} })
	signedCtx("extensions", func(c *refmls.GroupContext) {
		c.Exts = append(append([]refmls.Extension{}, c.Exts...), refmls.Extension{Type: 0xfe99, Data: []byte{1}})
	})
	signedCtx("version", func(c *refmls.GroupContext) { c.Version = 2 })

	// tree hash, covered by signature and tag
	add("tree-hash-random", tweak(func(f *forged) { f.hash = refmls.Bytes(f.d.R, f.s.Nh()) }))
	add("tree-hash-flipped", tweak(func(f *forged) { f.hash = flip(f.tree.RootHash(f.s), f.d.R.Intn(1000)) }))
	add("tree-hash-empty", tweak(func(f *forged) { f.hash = []byte{} }))
	add("tree-hash-truncated", tweak(func(f *forged) { h := f.tree.RootHash(f.s); f.hash = h[:len(h)-1] }))
	add("tree-hash-of-old-tree", tweak(func(f *forged) { f.hash = f.d.evil.Ref.Ctx.TreeHash }))
	add("tree-lacks-member", tweak(func(f *forged) {
		f.hash = f.tree.RootHash(f.s)
		t := f.tree.Clone()
		t.Remove(f.d.LeafOf(f.d.third))
		for x := range t {
			if x%2 == 1 {
				t[x] = nil
			}
		}
		f.gs.HasPath, f.gs.PathSecret = false, nil
		f.raw = t.Bytes()
	}))

	// leaves
	add("leaf-signature", swapLeaf(func(d *den) *refmls.MemberOpts {
		return &refmls.MemberOpts{LeafPost: func(l *refmls.LeafNode) { l.Sig = flip(l.Sig, d.R.Intn(1000)) }}
	}))
	add("leaf-signature-empty", swapLeaf(func(d *den) *refmls.MemberOpts {
		return &refmls.MemberOpts{LeafPost: func(l *refmls.LeafNode) { l.Sig = []byte{} }}
	}))
	add("leaf-signed-by-other", swapLeaf(func(d *den) *refmls.MemberOpts {
		return &refmls.MemberOpts{LeafSigKey: d.evil.Ref.SigPriv}
	}))
	add("leaf-identity-changed", swapLeaf(func(d *den) *refmls.MemberOpts {
		return &refmls.MemberOpts{LeafPost: func(l *refmls.LeafNode) { l.Cred.Identity = []byte("someone else") }}
	}))
	add("leaf-key-changed", swapLeaf(func(d *den) *refmls.MemberOpts {
		return &refmls.MemberOpts{LeafPost: func(l *refmls.LeafNode) { l.EncKey, _ = d.S.GenKEM(d.R) }}
	}))
	for _, src := range []uint8{refmls.SrcUpdate, refmls.SrcCommit} {
		add(fmt.Sprintf("leaf-source-%d-other-position", src), func(d *den, v *sim.Client) *refmls.Welcome {
			li := d.LeafOf(d.third)
			return swapAt(d, v, li, &refmls.MemberOpts{LeafPre: func(l *refmls.LeafNode) { l.Source = src }, LeafTBSGID: d.evil.Ref.Ctx.GroupID, LeafTBSIdx: li + 1})
		})
		add(fmt.Sprintf("leaf-source-%d-position-zero", src), func(d *den, v *sim.Client) *refmls.Welcome {
			li := d.LeafOf(d.third)
			if li == 0 {
				return nil
			}
			return swapAt(d, v, li, &refmls.MemberOpts{LeafPre: func(l *refmls.LeafNode) { l.Source = src }, LeafTBSGID: d.evil.Ref.Ctx.GroupID, LeafTBSIdx: 0})
		})
		add(fmt.Sprintf("leaf-source-%d-other-group", src), func(d *den, v *sim.Client) *refmls.Welcome {
			li := d.LeafOf(d.third)
			return swapAt(d, v, li, &refmls.MemberOpts{LeafPre: func(l *refmls.LeafNode) { l.Source = src }, LeafTBSGID: []byte("other group"), LeafTBSIdx: li})
		})
		add(fmt.Sprintf("leaf-source-%d-unbound", src), func(d *den, v *sim.Client) *refmls.Welcome {
			li := d.LeafOf(d.third)
			m := refmls.NewMember(d.S, d.R, &refmls.MemberOpts{Identity: []byte("unbound")})
			l := m.KP.Leaf.Clone()
			l.Source = src
			return d.forge(v, true, refmls.Hooks{Tree: func(t *refmls.Tree) { t.Update(li, l) }}, nil)
		})
	}
	now := unixNow()
	for _, bl := range badLife {
		add("leaf-lifetime-"+bl.name, swapLeaf(func(d *den) *refmls.MemberOpts {
			return &refmls.MemberOpts{LeafPre: func(l *refmls.LeafNode) { l.NotBefore, l.NotAfter = bl.f(unixNow()) }}
		}))
	}
	add("leaf-extension-unsupported", swapLeaf(func(d *den) *refmls.MemberOpts {
		return &refmls.MemberOpts{LeafExts: []refmls.Extension{{Type: 0xb123, Data: []byte{1}}}}
	}))
	for i := 0; i < 4; i++ {
		add(fmt.Sprintf("leaf-extension-any-%d", i), swapLeaf((*den).badExtsOpts))
		add(fmt.Sprintf("leaf-signature-key-malformed-%d", i), swapLeaf((*den).badSigKeyOpts))
	}
	add("leaf-extension-one-unsupported", swapLeaf(func(d *den) *refmls.MemberOpts {
		c := refmls.DefaultCaps(d.S)
		c.Extensions = append(c.Extensions, 0xb122)
		return &refmls.MemberOpts{Caps: &c, LeafExts: []refmls.Extension{{Type: 0xb122, Data: []byte{1}}, {Type: 0xb123, Data: []byte{1}}}}
	}))
	add("leaf-credential-not-supported-by-others", swapLeaf(func(d *den) *refmls.MemberOpts {
		c := refmls.DefaultCaps(d.S)
		c.Credentials = append(c.Credentials, 2)
		return &refmls.MemberOpts{Caps: &c, Cred: &refmls.Credential{Type: 2, Certs: [][]byte{[]byte("cert")}}}
	}))
	add("leaf-does-not-support-others", swapLeaf(func(d *den) *refmls.MemberOpts {
		c := refmls.DefaultCaps(d.S)
		c.Credentials = []uint16{2}
		return &refmls.MemberOpts{Caps: &c}
	}))
	for i := 0; i < 3; i++ {
		add(fmt.Sprintf("leaf-credential-supported-only-by-itself-%d", i), swapLeaf(func(d *den) *refmls.MemberOpts {
			// as many entries as there are members
			c := refmls.DefaultCaps(d.S)
			c.Credentials = append([]uint16{}, c.Credentials...)
			n := len(d.evil.Ref.Tree.Members()) + i
			for j := 0; j < n; j++ {
				c.Credentials = append(c.Credentials, 2)
			}
			return &refmls.MemberOpts{Caps: &c, Cred: &refmls.Credential{Type: 2, Certs: [][]byte{[]byte("cert")}}}
		}))
	}
	add("leaf-supports-nothing", swapLeaf(func(d *den) *refmls.MemberOpts {
		c := refmls.DefaultCaps(d.S)
		c.Credentials = nil
		return &refmls.MemberOpts{Caps: &c}
	}))
	add("duplicate-signature-key", swapLeaf(func(d *den) *refmls.MemberOpts {
		return &refmls.MemberOpts{SigPub: d.evil.Ref.Tree.Leaf(d.evil.Ref.MyLeaf).SigKey, SigPriv: d.evil.Ref.SigPriv}
	}))
	add("duplicate-encryption-key", swapLeaf(func(d *den) *refmls.MemberOpts {
		return &refmls.MemberOpts{EncPub: d.peer.Ref.Tree.Leaf(d.peer.Ref.MyLeaf).EncKey, EncPriv: []byte{}}
	}))
	out = append(out, joinRule{name: "inviter-takes-joiner-signature-key",
		victim: func(d *den) *sim.Client {
			pub, priv := d.evil.Ref.Tree.Leaf(d.evil.Ref.MyLeaf).SigKey, d.evil.Ref.SigPriv
			m := refmls.NewMember(d.S, d.R, &refmls.MemberOpts{Identity: []byte("victim"), SigPub: pub, SigPriv: priv})
			return &sim.Client{M: m, KPP: sim.LibClientFrom(d.X, m), Name: "victim"}
		},
		f: func(d *den, v *sim.Client) *refmls.Welcome {
			return d.forge(v, d.R.Intn(2) == 0, refmls.Hooks{}, nil)
		}})
	for _, bl := range badLife {
		out = append(out, joinRule{name: "own-leaf-" + bl.name,
			victim: func(d *den) *sim.Client {
				m := refmls.NewMember(d.S, d.R, &refmls.MemberOpts{Identity: []byte("victim"), LeafPre: func(l *refmls.LeafNode) { l.NotBefore, l.NotAfter = bl.f(unixNow()) }})
				return &sim.Client{M: m, KPP: sim.LibClientFrom(d.X, m), Name: "victim"}
			},
			f: func(d *den, v *sim.Client) *refmls.Welcome {
				return d.forge(v, d.R.Intn(2) == 0, refmls.Hooks{}, nil)
			}})
	}

	// inner nodes: uniqueness
	add("duplicate-parent-keys", tweakPath(func(d *den) refmls.Hooks {
		return refmls.Hooks{PathKeys: func(p [][]byte) { p[0] = p[1] }}
	}, func(f *forged) bool { f.gs.HasPath, f.gs.PathSecret = false, nil; return true }))
	add("parent-key-is-leaf-key", tweakPath(func(d *den) refmls.Hooks {
		return refmls.Hooks{PathKeys: func(p [][]byte) { p[0] = d.third.Ref.Tree.Leaf(d.third.Ref.MyLeaf).EncKey }}
	}, func(f *forged) bool { f.gs.HasPath, f.gs.PathSecret = false, nil; return true }))
	add("parent-key-of-other-subtree", func(d *den, v *sim.Client) *refmls.Welcome {
		off := offPath(d.evil.Ref.Tree, d.evil.Ref.MyLeaf)
		if len(off) == 0 {
			return nil
		}
		k := d.evil.Ref.Tree[off[d.R.Intn(len(off))]].EncKey()
		return d.forge(v, true, refmls.Hooks{PathKeys: func(p [][]byte) { p[0] = k }},
			func(f *forged) { f.gs.HasPath, f.gs.PathSecret = false, nil })
	})

	// inner nodes: parent hashes
	add("parent-hash-leaf", tweakPath(func(d *den) refmls.Hooks {
		return refmls.Hooks{LeafPre: func(l *refmls.LeafNode) { l.ParentHash = flip(l.ParentHash, d.R.Intn(1000)) }}
	}, nil))
	add("parent-hash-leaf-empty", tweakPath(func(d *den) refmls.Hooks {
		return refmls.Hooks{LeafPre: func(l *refmls.LeafNode) { l.ParentHash = []byte{} }}
	}, nil))
	add("parent-hash-leaf-source-update", tweakPath(func(d *den) refmls.Hooks {
		return refmls.Hooks{LeafPre: func(l *refmls.LeafNode) { l.Source = refmls.SrcUpdate }}
	}, nil))
	add("parent-hash-leaf-source-key-package", tweakPath(func(d *den) refmls.Hooks {
		return refmls.Hooks{LeafPre: func(l *refmls.LeafNode) {
			l.Source, l.NotBefore, l.NotAfter = refmls.SrcKeyPackage, now-day, now+20*day
		}}
	}, nil))
	add("parent-hash-inner", tweakPath(nil, func(f *forged) bool {
		var c []int
		for _, p := range refmls.DirectPath(2*int(f.signer), len(f.tree)) {
			if n := f.tree[p]; n != nil && p != refmls.RootOf(len(f.tree)) {
				c = append(c, p)
			}
		}
		if len(c) == 0 {
			return false
		}
		n := f.tree[c[f.d.R.Intn(len(c))]].Parent
		n.ParentHash = flip(n.ParentHash, 7)
		return true
	}))
	add("parent-hash-root-set", tweakPath(nil, func(f *forged) bool {
		f.tree[refmls.RootOf(len(f.tree))].Parent.ParentHash = refmls.Bytes(f.d.R, f.s.Nh())
		return true
	}))
	// The malicious member plants a key of its own in somebody else's
	// subtree before the commit.
	add("planted-parent-key", func(d *den, v *sim.Client) *refmls.Welcome {
		off := offPath(d.evil.Ref.Tree, d.evil.Ref.MyLeaf)
		if len(off) == 0 {
			return nil
		}
		x := off[d.R.Intn(len(off))]
		return d.forge(v, true, refmls.Hooks{Tree: func(t *refmls.Tree) {
			if x < len(*t) && (*t)[x] != nil {
				(*t)[x].Parent.EncKey, _ = d.S.GenKEM(d.R)
			}
		}}, nil)
	})
	add("planted-parent-node", func(d *den, v *sim.Client) *refmls.Welcome {
		return d.forge(v, true, refmls.Hooks{Tree: func(t *refmls.Tree) {
			var c []int
			for x, n := range *t {
				if n == nil && x%2 == 1 && !isAncestor(x, d.evil.Ref.MyLeaf, len(*t)) {
					c = append(c, x)
				}
			}
			if len(c) == 0 {
				// replace one that is there
				for x := range *t {
					if x%2 == 1 && !isAncestor(x, d.evil.Ref.MyLeaf, len(*t)) {
						c = append(c, x)
					}
				}
			}
			pub, _ := d.S.GenKEM(d.R)
			(*t)[c[d.R.Intn(len(c))]] = &refmls.Node{Parent: &refmls.ParentNode{EncKey: pub, ParentHash: []byte{}}}
		}}, nil)
	})
	add("stale-subtree", func(d *den, v *sim.Client) *refmls.Welcome {
		// a leaf changes without its path being blanked
		li := d.LeafOf(d.third)
		m := refmls.NewMember(d.S, d.R, &refmls.MemberOpts{Identity: []byte("swapped in")})
		done := false
		w := d.forge(v, true, refmls.Hooks{Tree: func(t *refmls.Tree) {
			(*t)[2*int(li)] = &refmls.Node{Leaf: &m.KP.Leaf}
			for _, p := range offPath(*t, d.evil.Ref.MyLeaf) {
				done = done || isAncestor(p, li, len(*t))
			}
		}}, nil)
		if !done {
			return nil
		}
		return w
	})
	// A blank intermediate node that the inviter should have filled: the
	// parent hash link skips it (RFC 9420 section 7.9.2 forbids it).
	add("skipped-path-node", tweakPath(nil, func(f *forged) bool {
		var c []int
		for _, p := range refmls.DirectPath(2*int(f.signer), len(f.tree)) {
			if f.tree[p] != nil && p != refmls.RootOf(len(f.tree)) && !isAncestor(p, f.res.Adds[0], len(f.tree)) {
				c = append(c, p)
			}
		}
		if len(c) == 0 {
			return false
		}
		f.tree[c[f.d.R.Intn(len(c))]] = nil
		f.rehash()
		f.gs.HasPath, f.gs.PathSecret = false, nil
		return true
	}))
	add("all-path-nodes-but-root-skipped", tweakPath(nil, func(f *forged) bool {
		for _, p := range refmls.DirectPath(2*int(f.signer), len(f.tree)) {
			if p != refmls.RootOf(len(f.tree)) {
				f.tree[p] = nil
			}
		}
		f.rehash()
		f.gs.HasPath, f.gs.PathSecret = false, nil
		return true
	}))
	// Two members below the skipped node both carry the parent hash.
	add("parent-hash-claimed-twice", tweakPath(nil, func(f *forged) bool {
		me := 2 * int(f.signer)
		p, sib := refmls.ParentOf(me, len(f.tree)), refmls.SiblingOf(me, len(f.tree))
		li := uint32(sib / 2)
		if f.tree[sib] == nil || li == f.res.Adds[0] || p == refmls.RootOf(len(f.tree)) {
			return false
		}
		for _, n := range f.tree {
			if n != nil && n.Parent != nil && slices.Contains(n.Parent.Unmerged, li) {
				return false
			}
		}
		f.tree[p] = nil
		f.rehash()
		m := refmls.NewMember(f.s, f.d.R, f.d.dress(&refmls.MemberOpts{Identity: []byte("accomplice")}))
		l := m.KP.Leaf.Clone()
		l.Source, l.ParentHash = refmls.SrcCommit, f.tree[me].Leaf.ParentHash
		l.NotBefore, l.NotAfter = 0, 0
		l.Sig = f.s.SignWithLabel(m.SigPriv, "LeafNodeTBS", l.TBS(f.ctx.GroupID, li))
		f.tree[sib] = &refmls.Node{Leaf: l}
		f.gs.HasPath, f.gs.PathSecret = false, nil
		return true
	}))

	// inner nodes: unmerged leaves
	unmerged := func(name string, pick func(f *forged, root int) ([]uint32, bool)) {
		add("unmerged-"+name, tweakPath(nil, func(f *forged) bool {
			root := refmls.RootOf(len(f.tree))
			u, ok := pick(f, root)
			if !ok {
				return false
			}
			f.tree[root].Parent.Unmerged = u
			f.rehash()
			f.gs.HasPath, f.gs.PathSecret = false, nil
			return true
		}))
		// the same at the lowest filled node of the path
		add("unmerged-low-"+name, tweakPath(nil, func(f *forged) bool {
			for _, p := range refmls.DirectPath(2*int(f.signer), len(f.tree)) {
				if f.tree[p] == nil {
					continue
				}
				u, ok := pick(f, p)
				if !ok {
					return false
				}
				f.tree[p].Parent.Unmerged = u
				f.rehash()
				f.gs.HasPath, f.gs.PathSecret = false, nil
				return true
			}
			return false
		}))
	}
	unmerged("out-of-range", func(f *forged, root int) ([]uint32, bool) {
		return []uint32{f.tree.NumLeaves() + uint32(f.d.R.Intn(3))}, true
	})
	unmerged("far-out-of-range", func(f *forged, root int) ([]uint32, bool) { return []uint32{1 << 30}, true })
	unmerged("wrapped", func(f *forged, root int) ([]uint32, bool) { return []uint32{1<<31 | 1}, true })
	unmerged("maximal", func(f *forged, root int) ([]uint32, bool) { return []uint32{1<<32 - 1}, true })
	unmerged("blank", func(f *forged, root int) ([]uint32, bool) {
		for li := uint32(0); li < f.tree.NumLeaves(); li++ {
			if f.tree.Leaf(li) == nil && isAncestor(root, li, len(f.tree)) {
				return []uint32{li}, true
			}
		}
		return nil, false
	})
	unmerged("blank-among-others", func(f *forged, root int) ([]uint32, bool) {
		for li := uint32(0); li < f.tree.NumLeaves(); li++ {
			if f.tree.Leaf(li) == nil && isAncestor(root, li, len(f.tree)) {
				a := f.res.Adds[0]
				if !isAncestor(root, a, len(f.tree)) {
					return nil, false
				}
				if a < li {
					return []uint32{a, li}, true
				}
				return []uint32{li, a}, true
			}
		}
		return nil, false
	})
	unmerged("not-descendant", func(f *forged, root int) ([]uint32, bool) {
		for _, li := range f.tree.Members() {
			if !isAncestor(root, li, len(f.tree)) {
				return []uint32{li}, true
			}
		}
		return nil, false
	})
	for _, first := range []bool{false, true} {
		unmerged(fmt.Sprintf("one-not-descendant-first=%v", first), func(f *forged, root int) ([]uint32, bool) {
			// along with one that is
			a, found := f.res.Adds[0], false
			if !isAncestor(root, a, len(f.tree)) {
				return nil, false
			}
			u := a
			for _, li := range f.tree.Members() {
				if !isAncestor(root, li, len(f.tree)) && (li < a) == first && !found {
					u, found = li, true
				}
			}
			if u > a {
				return []uint32{a, u}, found
			}
			return []uint32{u, a}, found
		})
	}
	// The newcomer is unmerged at all nodes of the path, even at those that
	// are not above it.
	for _, pair := range []bool{false, true} {
		add(fmt.Sprintf("unmerged-foreign-pair=%v", pair), tweakPath(nil, func(f *forged) bool {
			a, n := f.res.Adds[0], len(f.tree)
			u, foreign := []uint32{a}, false
			for _, p := range refmls.DirectPath(2*int(f.signer), n) {
				if f.tree[p] == nil {
					continue
				}
				foreign = foreign || !isAncestor(p, a, n)
				if pair && len(u) == 1 {
					// along with one that is below all of them
					for _, li := range f.tree.Members() {
						low := -1
						for _, q := range refmls.DirectPath(2*int(li), n) {
							if f.tree[q] != nil && low < 0 {
								low = q
							}
						}
						if li != f.signer && low == p {
							u = append(u, li)
						}
					}
					if len(u) < 2 {
						return false
					}
					sort.Slice(u, func(i, j int) bool { return u[i] < u[j] })
				}
				f.tree[p].Parent.Unmerged = append([]uint32{}, u...)
			}
			f.rehash()
			f.gs.HasPath, f.gs.PathSecret = false, nil
			return foreign
		}))
	}
	// Several unmerged leaves in the wrong order, at all nodes or one node.
	for _, how := range []string{"reversed", "end-swapped", "start-swapped", "one-node-reversed"} {
		add("unmerged-"+how, tweakPath(nil, func(f *forged) bool {
			n, wrong := len(f.tree), false
			for _, p := range refmls.DirectPath(2*int(f.signer), n) {
				if f.tree[p] == nil {
					continue
				}
				var u []uint32
				for _, li := range f.tree.Members() {
					low := -1
					for _, q := range refmls.DirectPath(2*int(li), n) {
						if f.tree[q] != nil && low < 0 {
							low = q
						}
					}
					if li != f.signer && isAncestor(p, li, n) && isAncestor(low, f.signer, n) {
						u = append(u, li)
					}
				}
				if k := len(u); k > 1 {
					switch how {
					case "reversed":
						slices.Reverse(u)
					case "end-swapped":
						u[k-1], u[k-2] = u[k-2], u[k-1]
					case "start-swapped":
						u[0], u[1] = u[1], u[0]
					case "one-node-reversed":
						if !wrong {
							slices.Reverse(u)
						}
					}
					wrong = true
				}
				f.tree[p].Parent.Unmerged = u
			}
			f.rehash()
			f.gs.HasPath, f.gs.PathSecret = false, nil
			return wrong
		}))
	}
	// An honest member is declared unmerged at the root although a filled
	// node between them does not list it.
	for _, among := range []bool{false, true} {
		unmerged(fmt.Sprintf("missing-below-among=%v", among), func(f *forged, root int) ([]uint32, bool) {
			var c []uint32
			for _, li := range f.tree.Members() {
				if !isAncestor(root, li, len(f.tree)) || li == f.signer {
					continue
				}
				for _, p := range refmls.DirectPath(2*int(li), len(f.tree)) {
					if p == root {
						break
					}
					n := f.tree[p]
					if n == nil || isAncestor(p, f.signer, len(f.tree)) || among == (len(n.Parent.Unmerged) == 0) || slices.Contains(n.Parent.Unmerged, li) {
						continue
					}
					c = append(c, li)
				}
			}
			if len(c) == 0 {
				return nil, false
			}
			return []uint32{c[f.d.R.Intn(len(c))]}, true
		})
	}
	// A wrong one after as many right ones as there are.
	unmerged("late", func(f *forged, root int) ([]uint32, bool) {
		var u []uint32
		for _, li := range f.tree.Members() {
			ok := isAncestor(root, li, len(f.tree)) && li != f.signer
			for _, p := range refmls.DirectPath(2*int(li), len(f.tree)) {
				if p == root {
					break
				}
				if n := f.tree[p]; n != nil && !slices.Contains(n.Parent.Unmerged, li) {
					ok = false
				}
			}
			if ok {
				u = append(u, li)
			}
		}
		return append(u, f.tree.NumLeaves()+uint32(f.d.R.Intn(9))), len(u) > 1
	})
	unmerged("duplicate", func(f *forged, root int) ([]uint32, bool) {
		a := f.res.Adds[0]
		return []uint32{a, a}, isAncestor(root, a, len(f.tree))
	})
	unmerged("own-leaf-of-inviter", func(f *forged, root int) ([]uint32, bool) { return []uint32{f.signer}, true })
	// A list of unmerged leaves in the wrong order; the inviter commits to it.
	add("unmerged-unsorted", func(d *den, v *sim.Client) *refmls.Welcome {
		c := d.NewClient(false)
		f := (*forged)(nil)
		w := d.forge2(v, c, func(g *forged) { f = g })
		root := f.tree[refmls.RootOf(len(f.tree))]
		if root == nil || len(root.Parent.Unmerged) < 2 {
			return nil
		}
		return w
	})
	add("unmerged-dropped", func(d *den, v *sim.Client) *refmls.Welcome {
		done := false
		w := d.forge(v, true, refmls.Hooks{Tree: func(t *refmls.Tree) {
			for _, x := range offPath(*t, d.evil.Ref.MyLeaf) {
				if n := (*t)[x].Parent; len(n.Unmerged) > 0 && !done {
					n.Unmerged = n.Unmerged[1:]
					done = true
				}
			}
		}}, nil)
		if !done {
			return nil
		}
		return w
	})
	// One of several unmerged leaves is left out, or any one at any node.
	add("unmerged-one-dropped", func(d *den, v *sim.Client) *refmls.Welcome {
		done := false
		w := d.forge(v, true, refmls.Hooks{Tree: func(t *refmls.Tree) {
			off := offPath(*t, d.evil.Ref.MyLeaf)
			d.R.Shuffle(len(off), func(i, j int) { off[i], off[j] = off[j], off[i] })
			for _, x := range off {
				if n := (*t)[x].Parent; len(n.Unmerged) > 0 && !done {
					i := d.R.Intn(len(n.Unmerged))
					n.Unmerged = append(append([]uint32{}, n.Unmerged[:i]...), n.Unmerged[i+1:]...)
					done = true
				}
			}
		}}, nil)
		if !done {
			return nil
		}
		return w
	})
	// The leaf left of an honest committer is left out of the lists of all
	// nodes above it.
	add("unmerged-left-dropped", func(d *den, v *sim.Client) *refmls.Welcome {
		done := false
		w := d.forge(v, true, refmls.Hooks{Tree: func(t *refmls.Tree) {
			var gone []uint32
			for _, x := range offPath(*t, d.evil.Ref.MyLeaf) {
				if u := (*t)[x].Parent.Unmerged; len(u) > 0 && len(gone) == 0 {
					gone = u[:1:1]
				}
			}
			for _, x := range offPath(*t, d.evil.Ref.MyLeaf) {
				n := (*t)[x].Parent
				var keep []uint32
				for _, u := range n.Unmerged {
					if len(gone) > 0 && u == gone[0] {
						done = true
						continue
					}
					keep = append(keep, u)
				}
				n.Unmerged = keep
			}
		}}, nil)
		if !done {
			return nil
		}
		return w
	})
	add("unmerged-claimed", func(d *den, v *sim.Client) *refmls.Welcome {
		// a merged leaf below an honest node is declared unmerged
		done := false
		w := d.forge(v, true, refmls.Hooks{Tree: func(t *refmls.Tree) {
			for _, x := range offPath(*t, d.evil.Ref.MyLeaf) {
				n := (*t)[x].Parent
				if len(n.Unmerged) > 0 {
					continue
				}
				for _, li := range t.Members() {
					if isAncestor(x, li, len(*t)) && !done {
						n.Unmerged = []uint32{li}
						done = true
					}
				}
			}
		}}, nil)
		if !done {
			return nil
		}
		return w
	})
	// encoding and shape of the tree
	add("tree-missing", tweak(func(f *forged) { f.noTree = true }))
	add("tree-empty", tweak(func(f *forged) { f.raw = []byte{0} }))
	add("tree-zero-bytes", tweak(func(f *forged) { f.raw = []byte{} }))
	add("tree-trailing-blank", tweak(func(f *forged) {
		var w refmls.W
		end := len(f.tree)
		for f.tree[end-1] == nil {
			end--
		}
		if end < len(f.tree) {
			f.tree.PutRaw(&w, end+1)
		} else {
			t := append(f.tree.Clone(), nil)
			t.PutRaw(&w, len(t))
		}
		f.raw = w.B
	}))
	add("tree-all-trailing-blanks", tweak(func(f *forged) {
		var w refmls.W
		t := f.tree.Clone()
		for i := 0; i <= len(f.tree); i++ {
			t = append(t, nil)
		}
		t.PutRaw(&w, len(t))
		f.raw = w.B
	}))
	add("tree-trailing-byte", tweak(func(f *forged) { f.raw = append(f.tree.Bytes(), 0) }))
	add("tree-truncated", tweak(func(f *forged) { b := f.tree.Bytes(); f.raw = b[:f.d.R.Intn(len(b))] }))
	add("tree-node-types-swapped", tweak(func(f *forged) {
		t := f.tree.Clone()
		pub, _ := f.s.GenKEM(f.d.R)
		t[2*int(f.d.LeafOf(f.d.third))] = &refmls.Node{Parent: &refmls.ParentNode{EncKey: pub}}
		f.raw = t.Bytes()
	}))
	add("tree-leaf-at-inner-position", tweak(func(f *forged) {
		t := f.tree.Clone()
		t[1+2*f.d.R.Intn(len(t)/2)] = &refmls.Node{Leaf: f.d.NewClient(false).M.KP.Leaf.Clone()}
		f.raw = t.Bytes()
	}))
	add("tree-inner-at-joiner", tweak(func(f *forged) {
		t := f.tree.Clone()
		pub, _ := f.s.GenKEM(f.d.R)
		t[2*int(f.res.Adds[0])] = &refmls.Node{Parent: &refmls.ParentNode{EncKey: pub}}
		f.raw = t.Bytes()
	}))
	add("tree-inner-at-signer", tweak(func(f *forged) {
		t := f.tree.Clone()
		pub, _ := f.s.GenKEM(f.d.R)
		t[2*int(f.signer)] = &refmls.Node{Parent: &refmls.ParentNode{EncKey: pub}}
		f.raw = t.Bytes()
	}))

	// the joiner's own leaf
	add("own-leaf-missing", func(d *den, v *sim.Client) *refmls.Welcome {
		other := d.NewClient(false)
		return d.forge(other, d.R.Intn(2) == 0, refmls.Hooks{}, func(f *forged) { f.v = v })
	})
	add("own-leaf-other-signature", func(d *den, v *sim.Client) *refmls.Welcome {
		// the inviter, who cannot sign for the joiner, alters its leaf
		return d.forge(v, true, refmls.Hooks{Tree: func(t *refmls.Tree) {
			for _, li := range t.Members() {
				if string(t.Leaf(li).EncKey) == string(v.M.KP.Leaf.EncKey) {
					l := t.Leaf(li).Clone()
					l.Cred.Identity = append([]byte("x"), l.Cred.Identity...)
					(*t)[2*int(li)] = &refmls.Node{Leaf: l}
				}
			}
		}}, nil)
	})
	add("own-leaf-with-inviter-signature-key", func(d *den, v *sim.Client) *refmls.Welcome {
		return d.forge(v, true, refmls.Hooks{Tree: func(t *refmls.Tree) {
			for _, li := range t.Members() {
				if string(t.Leaf(li).EncKey) == string(v.M.KP.Leaf.EncKey) {
					l := t.Leaf(li).Clone()
					pub, priv := d.S.GenSig(d.R)
					l.SigKey = pub
					l.Sig = d.S.SignWithLabel(priv, "LeafNodeTBS", l.TBS(nil, 0))
					(*t)[2*int(li)] = &refmls.Node{Leaf: l}
				}
			}
		}}, nil)
	})
	add("own-leaf-twice", func(d *den, v *sim.Client) *refmls.Welcome {
		return d.forge(v, true, refmls.Hooks{Tree: func(t *refmls.Tree) { t.Update(d.LeafOf(d.third), &v.M.KP.Leaf) }}, nil)
	})

	// path secret
	ps := func(name string, m func(f *forged) bool) {
		add("path-secret-"+name, tweakPath(nil, m))
	}
	ps("random", func(f *forged) bool { f.gs.PathSecret = refmls.Bytes(f.d.R, f.s.Nh()); return true })
	ps("flipped", func(f *forged) bool { f.gs.PathSecret = flip(f.gs.PathSecret, f.d.R.Intn(1000)); return true })
	ps("empty", func(f *forged) bool { f.gs.PathSecret = []byte{}; return true })
	ps("short", func(f *forged) bool { f.gs.PathSecret = f.gs.PathSecret[:f.s.Nh()-9]; return true })
	ps("long", func(f *forged) bool { f.gs.PathSecret = append(f.gs.PathSecret, 1); return true })
	ps("next", func(f *forged) bool { f.gs.PathSecret = f.s.DeriveSecret(f.gs.PathSecret, "path"); return true })
	ps("node-secret", func(f *forged) bool { f.gs.PathSecret = f.s.DeriveSecret(f.gs.PathSecret, "node"); return true })
	add("path-secret-for-blank-node", func(d *den, v *sim.Client) *refmls.Welcome {
		// the commit without a path leaves the common ancestor blank
		done := false
		w := d.forge(v, false, refmls.Hooks{}, func(f *forged) {
			for x := 2 * int(f.res.Adds[0]); ; x = refmls.ParentOf(x, len(f.tree)) {
				if isAncestor(x, f.signer, len(f.tree)) {
					done = f.tree[x] == nil
					break
				}
			}
			f.gs.HasPath, f.gs.PathSecret = true, refmls.Bytes(d.R, d.S.Nh())
		})
		if !done {
			return nil
		}
		return w
	})
	add("path-secret-for-untouched-node", func(d *den, v *sim.Client) *refmls.Welcome {
		return d.forge(v, false, refmls.Hooks{}, func(f *forged) {
			f.gs.HasPath, f.gs.PathSecret = true, refmls.Bytes(d.R, d.S.Nh())
		})
	})
	add("path-secret-upper-key", func(d *den, v *sim.Client) *refmls.Welcome {
		// fits the common ancestor, but not a node above it
		done := false
		w := d.forge(v, true, refmls.Hooks{PathKeys: func(p [][]byte) { p[len(p)-1], _ = d.S.GenKEM(d.R) }}, func(f *forged) {
			root := refmls.RootOf(len(f.tree))
			for x := 2 * int(f.res.Adds[0]); ; x = refmls.ParentOf(x, len(f.tree)) {
				if isAncestor(x, f.signer, len(f.tree)) {
					done = x != root
					break
				}
			}
		})
		if !done {
			return nil
		}
		return w
	})
	add("path-secret-root-key", tweakPath(func(d *den) refmls.Hooks {
		return refmls.Hooks{PathKeys: func(p [][]byte) { p[len(p)-1], _ = d.S.GenKEM(d.R) }}
	}, nil))
	add("path-secret-invalid-root-key", tweakPath(func(d *den) refmls.Hooks {
		return refmls.Hooks{PathKeys: func(p [][]byte) { p[len(p)-1] = []byte{1, 2, 3} }}
	}, nil))

	// group secrets
	add("joiner-secret-wrong", tweak(func(f *forged) { f.gs.Joiner = refmls.Bytes(f.d.R, f.s.Nh()) }))
	add("joiner-secret-short", tweak(func(f *forged) { f.gs.Joiner = f.gs.Joiner[:f.s.Nh()-9] }))
	add("joiner-secret-empty", tweak(func(f *forged) { f.gs.Joiner = []byte{} }))
	add("psk-unknown", tweak(func(f *forged) {
		f.gs.PSKs = []refmls.PSKID{{Type: refmls.PSKExternal, ID: []byte("unknown"), Nonce: refmls.Bytes(f.d.R, f.s.Nh())}}
	}))
	add("psk-resumption-unknown", tweak(func(f *forged) {
		f.gs.PSKs = []refmls.PSKID{{Type: refmls.PSKResumption, Usage: 1, GroupID: f.ctx.GroupID, Epoch: f.ctx.Epoch, Nonce: refmls.Bytes(f.d.R, f.s.Nh())}}
	}))
	add("psk-two-reinit", tweak(func(f *forged) {
		for i := 0; i < 2; i++ {
			f.gs.PSKs = append(f.gs.PSKs, refmls.PSKID{Type: refmls.PSKResumption, Usage: 2, GroupID: f.ctx.GroupID, Epoch: f.ctx.Epoch, Nonce: refmls.Bytes(f.d.R, f.s.Nh())})
		}
	}))
	add("secrets-trailing-byte", tweak(func(f *forged) { f.gsRaw = func(b []byte) []byte { return append(b, 0) } }))
	add("secrets-truncated", tweak(func(f *forged) { f.gsRaw = func(b []byte) []byte { return b[:f.d.R.Intn(len(b))] } }))
	add("secrets-presence-byte", tweak(func(f *forged) {
		f.gsRaw = func(b []byte) []byte {
			b = append([]byte{}, b...)
			b[1+len(f.gs.Joiner)] = 2
			return b
		}
	}))
	add("info-trailing-byte", tweak(func(f *forged) { f.giRaw = func(b []byte) []byte { return append(b, 0) } }))
	add("info-truncated", tweak(func(f *forged) { f.giRaw = func(b []byte) []byte { return b[:f.d.R.Intn(len(b))] } }))
	add("info-signature-cut-off", tweak(func(f *forged) {
		f.giRaw = func(b []byte) []byte { return b[:len(b)-1-f.d.R.Intn(60)] }
	}))
	add("info-without-signature", tweak(func(f *forged) {
		f.giPost = func(g *refmls.GroupInfo) { g.Sig = []byte{} }
		f.giRaw = func(b []byte) []byte { return b[:len(b)-1] }
	}))

	// encryption
	add("secrets-ciphertext", tweak(func(f *forged) {
		f.wel = func(w *refmls.Welcome) { w.Secrets[0].Ct.Ct = flip(w.Secrets[0].Ct.Ct, f.d.R.Intn(1000)) }
	}))
	add("secrets-kem-output", tweak(func(f *forged) {
		f.wel = func(w *refmls.Welcome) { w.Secrets[0].Ct.Kem = flip(w.Secrets[0].Ct.Kem, f.d.R.Intn(240)) }
	}))
	add("secrets-kem-output-empty", tweak(func(f *forged) {
		f.wel = func(w *refmls.Welcome) { w.Secrets[0].Ct.Kem = []byte{} }
	}))
	add("secrets-ciphertext-short", tweak(func(f *forged) {
		f.wel = func(w *refmls.Welcome) { w.Secrets[0].Ct.Ct = w.Secrets[0].Ct.Ct[:f.d.R.Intn(16)] }
	}))
	add("info-ciphertext", tweak(func(f *forged) {
		f.wel = func(w *refmls.Welcome) { w.EncGroupInfo = flip(w.EncGroupInfo, f.d.R.Intn(5000)) }
	}))
	add("info-ciphertext-short", tweak(func(f *forged) {
		f.wel = func(w *refmls.Welcome) { w.EncGroupInfo = w.EncGroupInfo[:f.d.R.Intn(20)] }
	}))
	add("info-of-other-epoch", func(d *den, v *sim.Client) *refmls.Welcome {
		a := d.forge(v, true, refmls.Hooks{}, nil)
		b := d.forge(v, true, refmls.Hooks{}, nil)
		a.EncGroupInfo = b.EncGroupInfo
		return a
	})
	// Both parts are valid, but the secrets were not encrypted for this group
	// information.
	add("secrets-for-other-info", tweak(func(f *forged) {
		f.seal = func(init, info, sec []byte) refmls.HPKECt {
			ct, _ := f.s.EncryptWithLabel(init, "Welcome", append([]byte{0}, info...), sec)
			return ct
		}
	}))
	add("secrets-without-info", tweak(func(f *forged) {
		f.seal = func(init, info, sec []byte) refmls.HPKECt {
			ct, _ := f.s.EncryptWithLabel(init, "Welcome", nil, sec)
			return ct
		}
	}))
	add("secrets-label", tweak(func(f *forged) {
		f.seal = func(init, info, sec []byte) refmls.HPKECt {
			ct, _ := f.s.EncryptWithLabel(init, "UpdatePathNode", info, sec)
			return ct
		}
	}))
	add("secrets-to-leaf-key", tweak(func(f *forged) {
		f.seal = func(init, info, sec []byte) refmls.HPKECt {
			ct, _ := f.s.EncryptWithLabel(f.v.M.KP.Leaf.EncKey, "Welcome", info, sec)
			return ct
		}
	}))
	add("reference-unknown", tweak(func(f *forged) {
		f.wel = func(w *refmls.Welcome) { w.Secrets[0].Ref = flip(w.Secrets[0].Ref, f.d.R.Intn(256)) }
	}))
	add("reference-prefix", tweak(func(f *forged) {
		f.wel = func(w *refmls.Welcome) { w.Secrets[0].Ref = w.Secrets[0].Ref[:len(w.Secrets[0].Ref)-1] }
	}))
	add("reference-extended", tweak(func(f *forged) {
		f.wel = func(w *refmls.Welcome) { w.Secrets[0].Ref = append(w.Secrets[0].Ref, 0) }
	}))
	add("reference-empty", tweak(func(f *forged) {
		f.wel = func(w *refmls.Welcome) { w.Secrets[0].Ref = []byte{} }
	}))
	add("no-secrets", tweak(func(f *forged) { f.wel = func(w *refmls.Welcome) { w.Secrets = nil } }))

	// cipher suites: 1 and 3 share the KEM, KDF and signature scheme
	out = append(out, joinRule{name: "suite-not-of-key-package",
		victim: func(d *den) *sim.Client {
			var o *refmls.Suite
			switch d.S.ID {
			case 1:
				o = refmls.GetSuite(3)
			case 3:
				o = refmls.GetSuite(1)
			default:
				return nil
			}
			m := refmls.NewMember(o, d.R, &refmls.MemberOpts{Identity: []byte("victim")})
			return &sim.Client{M: m, KPP: sim.LibClientFrom(d.X, m), Name: "victim"}
		},
		f: func(d *den, v *sim.Client) *refmls.Welcome {
			return d.forge(v, d.R.Intn(2) == 0, refmls.Hooks{}, nil)
		}})
	for _, id := range []uint16{0, 1, 2, 3, 4, 5, 6, 7, 8, 0x4242, 0xffff} {
		add(fmt.Sprintf("welcome-suite-%d", id), func(d *den, v *sim.Client) *refmls.Welcome {
			if id == d.S.ID {
				return nil
			}
			return d.forge(v, true, refmls.Hooks{}, func(f *forged) { f.wel = func(w *refmls.Welcome) { w.Suite = id } })
		})
		add(fmt.Sprintf("info-suite-%d", id), func(d *den, v *sim.Client) *refmls.Welcome {
			if id == d.S.ID {
				return nil
			}
			return d.forge(v, true, refmls.Hooks{}, func(f *forged) { f.ctx.Suite = id })
		})
		add(fmt.Sprintf("both-suites-%d", id), func(d *den, v *sim.Client) *refmls.Welcome {
			if id == d.S.ID {
				return nil
			}
			return d.forge(v, true, refmls.Hooks{}, func(f *forged) {
				f.ctx.Suite = id
				f.wel = func(w *refmls.Welcome) { w.Suite = id }
			})
		})
	}
	return out
}

func swapAt(d *den, v *sim.Client, li uint32, o *refmls.MemberOpts) *refmls.Welcome {
	if o.Identity == nil {
		o.Identity = []byte("replaced")
	}
	m := refmls.NewMember(d.S, d.R, o)
	return d.forge(v, true, refmls.Hooks{Tree: func(t *refmls.Tree) { t.Update(li, &m.KP.Leaf) }}, nil)
}
