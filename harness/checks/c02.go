package checks

import (
	"bytes"

	"verif.local/harness/refmls"
	"verif.local/harness/run"
	"verif.local/harness/sim"
)

func init() {
	run.Register(&run.Check{
		Prop: "C02", Level: "exploration",
		Rule: "distinct (suite, tree shape, message feature) situations in which library and conforming members were compared",
		Assumptions: []string{
			"the reference implementation conforms to RFC 9420 (it passes the official vectors)",
			"conforming peers use add, update and remove proposals and update paths only",
		},
		MinEvals: 3000, MinSeen: 100,
		Cases: func(tier string, seed int64) []run.Case {
			var out []run.Case
			out = append(out, casesOf("mixed", scale(tier, 120, 800), seed, nil)...)
			out = append(out, casesOf("feature", scale(tier, 16, 80), seed, nil)...)
			out = append(out, casesOf("position", scale(tier, 96, 384), seed, nil)...)
			out = append(out, casesOf("sparse", scale(tier, 48, 200), seed, nil)...)
			out = append(out, casesOf("big", scale(tier, 4, 16), seed, nil)...)
			out = append(out, casesOf("backlog", scale(tier, 4, 16), seed, nil)...)
			out = append(out, casesOf("trade", scale(tier, 12, 60), seed, nil)...)
			out = append(out, casesOf("crowd", scale(tier, 4, 16), seed, nil)...)
			return out
		},
		Run: func(x *run.Ctx) {
			if x.Case.Kind == "crowd" {
				c17Large(x)
				return
			}
			switch x.Case.Kind {
			case "mixed":
				c02Mixed(x)
			case "feature":
				c02Feature(x)
			case "position":
				c02Position(x)
			case "sparse":
				w := strictWorld(x, nil)
				sparse(w, func(k string) { x.Seen("sparse|%d|%s|%s", w.S.ID, k, w.Shape()) })
			case "big":
				c02Big(x)
			case "backlog":
				c02Backlog(x)
			case "trade":
				c02Trade(x)
			}
		},
	})
}

func strictWorld(x *run.Ctx, mod func(*sim.Cfg)) *sim.World {
	w := newWorld(x, func(c *sim.Cfg) {
		c.Strict = true
		if mod != nil {
			mod(c)
		}
	})
	watchEmissions(w)
	return w
}

// watchEmissions judges the meaning of each library emission.
func watchEmissions(w *sim.World) {
	w.OnLibMsg = func(m *sim.Member, raw []byte, ev *refmls.Event) {
		w.X.Eval(1)
		if l := w.LeafOf(m); ev.Sender != l {
			w.X.Fail("sender", "message of %s names leaf %d as sender, its leaf is %d", m.Name, ev.Sender, l)
		}
		if ev.Wire != refmls.WirePrivate {
			w.X.Fail("wire", "message of %s has wire format %d", m.Name, ev.Wire)
		}
	}
}

// c02Invite lets a library member invite and compares the whole Welcome with
// the state of a conforming member.
func c02Invite(w *sim.World, m *sim.Member, cl []*sim.Client, libs []bool) {
	x := w.X
	inv := w.Prepare(m, cl)
	wit := w.Witness()
	signer := w.LeafOf(m)
	pre := wit.Ref.Clone()
	pre.Lenient = true
	ev, err := pre.Process(inv.Raw)
	if err != nil {
		x.Fail("commit-emission", "conforming member refuses the commit of %s: %v", m.Name, err)
	}
	if len(ev.Props) != len(cl) {
		x.Fail("commit-meaning", "commit for %d key packages has %d proposals", len(cl), len(ev.Props))
	}
	for i, p := range ev.Props {
		x.Eval(1)
		if p.Type != refmls.PropAdd || !bytes.Equal(p.Add.Bytes(), cl[i].M.KP.Bytes()) {
			x.Fail("commit-meaning", "proposal %d of the commit does not add the key package of %s", i, cl[i].Name)
		}
	}
	var raw []byte
	x.Lib("Welcome.Bytes", func() { raw = inv.Welcome.Bytes() })
	wel, err := refmls.ParseWelcome(raw)
	if err != nil {
		x.Fail("welcome-parse", "welcome does not parse: %v", err)
	}
	for _, c := range cl {
		gs, gi, _, err := refmls.OpenWelcome(wel, c.M, &refmls.JoinOpts{})
		x.Eval(1)
		if err != nil {
			x.Fail("welcome-emission", "conforming client cannot open the welcome: %v", err)
		}
		if !bytes.Equal(gs.Joiner, pre.Joiner) || len(gs.PSKs) != 0 {
			x.Fail("welcome-meaning", "joiner secret or psks of the welcome differ from the commit's")
		}
		if (gs.HasPath) != (ev.Commit.Path != nil) {
			x.Fail("welcome-meaning", "path secret in welcome: %v, path in commit: %v", gs.HasPath, ev.Commit.Path != nil)
		}
		if !bytes.Equal(gi.Ctx.Bytes(), pre.Ctx.Bytes()) {
			x.Fail("welcome-meaning", "group context of the welcome differs from the one after the commit:\n%x\n%x", gi.Ctx.Bytes(), pre.Ctx.Bytes())
		}
		if !bytes.Equal(gi.ConfTag, pre.ConfTag) || gi.Signer != signer {
			x.Fail("welcome-meaning", "confirmation tag or signer (%d, want %d) of the group info is wrong", gi.Signer, signer)
		}
		for _, e := range gi.Exts {
			if e.Type == 2 && !bytes.Equal(e.Data, pre.Tree.Bytes()) {
				x.Fail("welcome-meaning", "ratchet tree in the welcome is not canonical or differs")
			}
		}
	}
	w.Complete(m, inv, libs)
}

// chatter exchanges application messages with all framing features, partly
// out of order.
func chatter(w *sim.World) {
	r := w.R
	type sent struct {
		raw, data []byte
		m         *sim.Member
	}
	var q []sent
	for _, m := range w.Members {
		if len(w.Members) > 12 && r.Intn(3) > 0 {
			continue
		}
		for i := r.Intn(3); i >= 0; i-- {
			data := w.SmallPayload()
			if r.Intn(8) == 0 {
				data = w.Payload()
			}
			if m.IsLib() {
				raw := w.LibApp(m, data)
				w.OnLibMsg(m, raw, openBy(w, m, raw))
				q = append(q, sent{raw, data, m})
				continue
			}
			o := &refmls.SealOpts{AAD: refmls.Bytes(r, r.Intn(2)*r.Intn(200)), Pad: r.Intn(2) * r.Intn(300)}
			if r.Intn(3) == 0 {
				g := m.Ref.AppGen + uint32([]int{1, 2, 7, 30, 200}[r.Intn(5)])
				o.Gen = &g
			}
			q = append(q, sent{m.Ref.App(data, o), data, m})
		}
	}
	if r.Intn(2) == 0 {
		r.Shuffle(len(q), func(i, j int) { q[i], q[j] = q[j], q[i] })
	}
	for _, s := range q {
		for _, d := range w.Members {
			if d != s.m {
				w.ExpectApp(d, s.raw, s.data, s.m.Name)
			}
		}
	}
}

func openBy(w *sim.World, m *sim.Member, raw []byte) *refmls.Event {
	g := w.Witness().Ref.Clone()
	g.Lenient = true
	_, ev, err := g.Open(raw)
	if err != nil {
		w.X.Fail("emission", "a conforming member cannot open a message of %s: %v (%s)", m.Name, err, sim.Hex(raw))
	}
	return ev
}

func c02Mixed(x *run.Ctx) {
	w := strictWorld(x, nil)
	max := []int{3, 5, 8, 11, 17}[x.Rng.Intn(5)]
	grow(w, 2+x.Rng.Intn(max-1))
	addKinds(w, 1, 1)
	for i := 0; i < 5+x.Rng.Intn(8); i++ {
		var k string
		if libs := w.Libs(); x.Rng.Intn(3) == 0 && len(w.Members) < max {
			cl, ls := w.NewClients(1 + x.Rng.Intn(3))
			c02Invite(w, libs[x.Rng.Intn(len(libs))], cl, ls)
			k = "invite"
		} else {
			k = w.RandomStep(max)
		}
		chatter(w)
		x.Seen("mixed|%d|%s|%s", w.S.ID, k, w.Shape())
	}
}

// c02Feature goes through message features one by one.
func c02Feature(x *run.Ctx) {
	r := x.Rng
	feats := []string{}
	w := strictWorld(x, func(c *sim.Cfg) { c.LibRatio = 5 })
	addKinds(w, 2, 3)
	say := func(name string, o *refmls.SealOpts, data []byte) {
		feats = append(feats, name)
		w.Say(w.Witness(), data, o, nil)
		x.Seen("feature|%d|%s", w.S.ID, name)
	}
	for _, n := range []int{0, 1, 63, 64, 16383, 16384} {
		say("aad", &refmls.SealOpts{AAD: refmls.Bytes(r, n)}, w.SmallPayload())
		say("pad", &refmls.SealOpts{Pad: n}, w.SmallPayload())
		say("data", nil, refmls.Bytes(r, n))
		// trailing zeros in the payload must survive padding removal
		say("zeros", &refmls.SealOpts{Pad: n % 100}, make([]byte, n))
	}
	for _, d := range []uint32{0, 1, 5, 255, 256, 257, 1000, 1024, 1025, 2048, 4097} {
		g := w.Witness().Ref.AppGen + d
		say("generation", &refmls.SealOpts{Gen: &g}, w.SmallPayload())
	}
	// a burst delivered backwards
	var raws, datas [][]byte
	for i := 0; i < 40; i++ {
		d := w.SmallPayload()
		datas = append(datas, d)
		raws = append(raws, w.Witness().Ref.App(d, nil))
	}
	for i := len(raws) - 1; i >= 0; i-- {
		for _, d := range w.Libs() {
			w.ExpectApp(d, raws[i], datas[i], "burst")
		}
	}
	x.Seen("feature|%d|burst", w.S.ID)
	// reuse guards of all zero, all ones
	say("guard", &refmls.SealOpts{Guard: make([]byte, 4)}, w.SmallPayload())
	say("guard", &refmls.SealOpts{Guard: []byte{255, 255, 255, 255}}, w.SmallPayload())
	// handshake messages in both framings, all proposal kinds, odd AAD
	for i, pub := range []bool{false, true, false, true} {
		seal := refmls.SealOpts{Public: pub, AAD: refmls.Bytes(r, []int{0, 63, 64, 300}[i]), Pad: i * 20}
		step := func(name string, sp *sim.Spec) {
			sp.Seal = seal
			if !pub && r.Intn(2) == 0 {
				sp.GenSkip = uint32(r.Intn(40))
			}
			w.Commit(sp)
			w.Agree()
			x.Seen("handshake|%d|%s|pub=%v|%d", w.S.ID, name, pub, i)
		}
		refs := w.Refs()
		step("empty", &sim.Spec{By: refs[r.Intn(len(refs))], Path: true})
		step("newsig", &sim.Spec{By: refs[r.Intn(len(refs))], Path: true, NewSig: true})
		cl, ls := w.NewClients(1)
		step("add-nopath", &sim.Spec{By: refs[0], Adds: cl, AddLib: ls})
		cl, ls = w.NewClients(2)
		step("add2-path", &sim.Spec{By: refs[1], Adds: cl, AddLib: ls, Path: true})
		refs = w.Refs()
		step("update", &sim.Spec{By: refs[0], Updates: []*sim.Member{refs[1]}, Path: true})
		refs = w.Refs()
		step("update2", &sim.Spec{By: refs[2], Updates: []*sim.Member{refs[0], refs[1]}, Path: true})
		refs = w.Refs()
		cl, ls = w.NewClients(2)
		cl = append(cl, w.NewClient(false), w.NewClient(true))
		ls = append(ls, false, true)
		// remove and refill the same leaf in one commit
		step("remove+add", &sim.Spec{By: refs[0], Removes: []*sim.Member{refs[1]}, Adds: cl, AddLib: ls, Path: true, ByRef: i%2 == 0})
		refs = w.Refs()
		last := w.Members[len(w.Members)-1]
		if last == refs[0] {
			last = refs[1]
		}
		step("remove", &sim.Spec{By: refs[0], Removes: []*sim.Member{last}, Path: true, ByRef: i%2 == 1})
		refs = w.Refs()
		addKinds(w, 2, 4)
		refs = w.Refs()
		cl, ls = w.NewClients(1)
		step("all", &sim.Spec{By: refs[0], Updates: []*sim.Member{refs[1]}, Removes: []*sim.Member{refs[2]}, Adds: cl, AddLib: ls, Path: true, ByRef: true})
		// proposals left out of the commit
		refs = w.Refs()
		w.Propose(refs[1], &refmls.Proposal{Type: refmls.PropUpdate, Update: refs[1].Ref.NewUpdateLeaf(nil, nil, nil)}, &refmls.SealOpts{Public: pub})
		step("unused-proposal", &sim.Spec{By: refs[0], Path: true})
		// a proposal sent by the committer itself, and one by a library-invited peer
		refs = w.Refs()
		cl, ls = w.NewClients(1)
		step("own-ref", &sim.Spec{By: refs[0], Adds: cl, AddLib: ls, Path: i%2 == 0, ByRef: true})
		// group info with further extensions around the tree
		cl, ls = w.NewClients(2)
		step("giext", &sim.Spec{By: refs[0], Adds: cl, AddLib: ls, Path: true, H: refmls.Hooks{
			ExtraGIExts: []refmls.Extension{{Type: 0xf000, Data: refmls.Bytes(r, r.Intn(80))}, {Type: 4, Data: refmls.Bytes(r, 33)}},
			GIPre: func(gi *refmls.GroupInfo) {
				if i%2 == 0 {
					gi.Exts = append(gi.Exts, refmls.Extension{Type: 0xf001, Data: []byte{}})
				}
			},
			// secrets for clients that are not ours, in any order
			Welcome: func(wel *refmls.Welcome) {
				o := wel.Secrets[0]
				o.Ref = refmls.Bytes(r, len(o.Ref))
				wel.Secrets = append([]refmls.EncGroupSecrets{o}, wel.Secrets...)
				r.Shuffle(len(wel.Secrets), func(a, b int) { wel.Secrets[a], wel.Secrets[b] = wel.Secrets[b], wel.Secrets[a] })
			},
		}})
		libs := w.Libs()
		cl, ls = w.NewClients(1)
		c02Invite(w, libs[r.Intn(len(libs))], cl, ls)
		chatter(w)
		// keep the group small
		for len(w.Members) > 9 {
			refs = w.Refs()
			sp := &sim.Spec{By: refs[0], Path: true, Seal: seal}
			for _, m := range w.Members[1:] {
				if m != refs[0] && m != refs[1] && m != refs[2] && m != w.Libs()[0] && m != w.Libs()[1] && len(sp.Removes) < 3 {
					sp.Removes = append(sp.Removes, m)
				}
			}
			w.Commit(sp)
			w.Agree()
		}
	}
	x.Sample("features exercised: %v", feats[:8])
}

// c02Position puts one library member at each position of groups of each
// small size and lets every other member commit from its position, over
// shapes with blanks and unmerged leaves.
func c02Position(x *run.Ctx) {
	r := x.Rng
	i := x.P("i") / 4
	size := 2 + i%11
	pos := 1 + (i/2+x.P("i"))%(size)
	if pos >= size {
		pos = size - 1
	}
	w := strictWorld(x, func(c *sim.Cfg) { c.LibFound = false; c.LibRatio = 1; c.Variety = false; c.X509 = false })
	// members one by one, so that positions are known
	for len(w.Members) < size {
		lib := len(w.Members) == pos
		w.Commit(&sim.Spec{By: w.Members[0], Adds: []*sim.Client{w.NewClient(lib)}, AddLib: []bool{lib}, Path: r.Intn(2) == 0, Seal: w.RandSeal()})
	}
	round := func(what string) {
		refs := w.Refs()
		r.Shuffle(len(refs), func(a, b int) { refs[a], refs[b] = refs[b], refs[a] })
		for _, m := range refs {
			w.Commit(&sim.Spec{By: m, Path: true, Seal: w.RandSeal()})
			w.Agree()
			x.Seen("position|%d|%d/%d|%s|%s", w.S.ID, pos, size, what, w.Shape())
		}
	}
	round("full")
	// unmerged leaves: additions without path, some by the library member
	for k := 0; k < 1+r.Intn(3); k++ {
		cl, ls := w.NewClients(1 + r.Intn(2))
		if r.Intn(2) == 0 {
			c02Invite(w, w.Libs()[0], cl, ls)
		} else {
			refs := w.Refs()
			w.Commit(&sim.Spec{By: refs[r.Intn(len(refs))], Adds: cl, AddLib: ls, Seal: w.RandSeal()})
		}
		if r.Intn(2) == 0 {
			// one partial commit: some nodes keep unmerged leaves
			refs := w.Refs()
			w.Commit(&sim.Spec{By: refs[r.Intn(len(refs))], Path: true, Seal: w.RandSeal()})
		}
	}
	w.Agree()
	round("unmerged")
	// blanks
	if len(w.Members) > 3 {
		refs := w.Refs()
		sp := &sim.Spec{By: refs[0], Path: true, Seal: w.RandSeal()}
		for _, m := range refs[1:] {
			if r.Intn(2) == 0 && len(w.Members)-len(sp.Removes) > 3 {
				sp.Removes = append(sp.Removes, m)
			}
		}
		w.Commit(sp)
		w.Agree()
		round("blanks")
		refs = w.Refs()
		if len(refs) > 1 {
			w.Commit(&sim.Spec{By: refs[0], Path: true, Updates: refs[1:2], Seal: w.RandSeal()})
			w.Agree()
		}
		cl, ls := w.NewClients(2)
		c02Invite(w, w.Libs()[0], cl, ls)
		chatter(w)
		round("refilled")
	}
}

// c02Big has more than 64 leaves, so that lists of leaf indices, nodes and
// proposals cross length-prefix boundaries.
func c02Big(x *run.Ctx) {
	w := strictWorld(x, func(c *sim.Cfg) { c.LibFound = false; c.LibRatio = 1; c.Variety = false; c.X509 = false })
	addKinds(w, 1, 2)
	w.Cfg.LibRatio = 0
	big := func(n int, path bool) {
		var cl []*sim.Client
		var ls []bool
		for i := 0; i < n; i++ {
			cl = append(cl, w.NewClient(false))
			ls = append(ls, false)
		}
		w.Commit(&sim.Spec{By: w.Witness(), Adds: cl, AddLib: ls, Path: path, Seal: w.RandSeal()})
		w.Agree()
		x.Seen("big|%d|%s", w.S.ID, w.Shape())
	}
	big(29, true)
	w.Commit(&sim.Spec{By: w.Refs()[1], Path: true, Seal: w.RandSeal()})
	big(40, false) // 40 unmerged leaves at the root: length over 64 bytes
	cl, ls := w.NewClients(3)
	ls[0] = true
	cl[0] = w.NewClient(true)
	c02Invite(w, w.Libs()[0], cl, ls)
	w.Commit(&sim.Spec{By: w.Members[len(w.Members)-5], Path: true, Seal: w.RandSeal()})
	w.Agree()
	x.Seen("big|%d|%s", w.S.ID, w.Shape())
	sp := &sim.Spec{By: w.Witness(), Path: true, Seal: w.RandSeal()}
	for i, m := range w.Members {
		if i > 40 && m != sp.By && !m.IsLib() {
			sp.Removes = append(sp.Removes, m)
		}
	}
	w.Commit(sp)
	w.Agree()
	x.Seen("big|%d|%s", w.S.ID, w.Shape())
}

// c02Backlog lets hundreds of proposals wait, a few of which are committed.
func c02Backlog(x *run.Ctx) {
	w := strictWorld(x, func(c *sim.Cfg) { c.LibFound = false; c.LibRatio = 1; c.Variety = false; c.X509 = false })
	addKinds(w, 2, 4)
	r := w.R
	for round := 0; round < 2; round++ {
		refs := w.Refs()
		by := refs[r.Intn(len(refs))]
		sent := map[*sim.Member][][]byte{}
		for i := 0; i < 350; i++ {
			m := refs[r.Intn(len(refs))]
			if m == by {
				continue
			}
			raw, ref := m.Ref.Propose(pUpdate(m.Ref.NewUpdateLeaf(nil, nil, nil)), &refmls.SealOpts{Public: r.Intn(2) == 0})
			w.DeliverProposal(raw, m)
			sent[m] = append(sent[m], ref)
		}
		// of each member one: the first, the last or any
		var list []refmls.ProposalOrRef
		for _, m := range refs {
			if s := sent[m]; len(s) > 0 {
				list = append(list, refmls.ProposalOrRef{Ref: s[[]int{0, len(s) - 1, r.Intn(len(s))}[r.Intn(3)]]})
			}
		}
		r.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
		res := by.Ref.Commit(&refmls.CommitOpts{List: list, Path: true, Seal: w.RandSeal()})
		w.DeliverCommit(res.Raw, by.Name, by, nil)
		by.Ref = res.Next
		w.Agree()
		x.Seen("backlog|%d|%d|%d", w.S.ID, len(list), round)
	}
}

// c02Trade covers commits that are valid only because of what they remove: a
// client that comes back with its signature key, and credential types that
// all remaining members support.
func c02Trade(x *run.Ctx) {
	w := strictWorld(x, func(c *sim.Cfg) { c.LibFound, c.X509, c.Variety, c.Able = false, false, false, true })
	r := w.R
	boss := w.Members[0]
	addKinds(w, 2, 3)
	spec := func(sp *sim.Spec) *sim.Spec {
		sp.By, sp.ByRef, sp.Seal = boss, r.Intn(2) == 0, w.RandSeal()
		return sp
	}
	second := func() refmls.Credential {
		return refmls.Credential{Type: 2, Certs: [][]byte{refmls.Bytes(r, 1+r.Intn(40))}}
	}
	client := func(o *refmls.MemberOpts, lib bool) *sim.Client {
		c := &sim.Client{M: refmls.NewMember(w.S, r, o), Name: "late"}
		if lib {
			c.KPP = sim.LibClientFrom(x, c.M)
		}
		return c
	}
	able := func() *refmls.Capabilities {
		c := refmls.DefaultCaps(w.S)
		c.Credentials = append([]uint16{}, c.Credentials...)
		c.Credentials = append(c.Credentials, 2)
		return &c
	}
	any := func() *sim.Member { return w.Members[1+r.Intn(len(w.Members)-1)] }
	for i := 0; i < 4; i++ {
		// the same client again
		m, lib := any(), r.Intn(2) == 0
		if len(w.Libs()) < 2 {
			lib = true
		}
		c := client(&refmls.MemberOpts{Identity: []byte("again"), Caps: able(), SigPub: m.C.M.KP.Leaf.SigKey, SigPriv: m.C.M.SigPriv}, lib)
		w.Commit(spec(&sim.Spec{Removes: []*sim.Member{m}, Adds: []*sim.Client{c}, AddLib: []bool{lib}, Path: true}))
		w.Agree()
		x.Seen("trade|again|%d|%v|%v", w.S.ID, m.IsLib(), lib)

		// the only one without the second type leaves, which is then used
		lib = r.Intn(2) == 0
		c = client(&refmls.MemberOpts{Identity: []byte("plain")}, lib)
		w.Commit(spec(&sim.Spec{Adds: []*sim.Client{c}, AddLib: []bool{lib}, Path: r.Intn(2) == 0}))
		plain := w.Members[len(w.Members)-1]
		sp := spec(&sim.Spec{Removes: []*sim.Member{plain}, Path: true})
		was := boss.Ref.Tree.Leaf(boss.Ref.MyLeaf).Cred
		if i%2 == 0 {
			sp.H.LeafPre = func(l *refmls.LeafNode) { l.Cred = second() }
		} else {
			cred := second()
			sp.Adds, sp.AddLib = []*sim.Client{client(&refmls.MemberOpts{Cred: &cred, Caps: able()}, lib)}, []bool{lib}
		}
		w.Commit(sp)
		w.Agree()
		x.Seen("trade|begin|%d|%v|%d", w.S.ID, lib, i%2)

		// the only one with the second type leaves or changes, and one comes
		// that does not support it
		lib = r.Intn(2) == 0
		sp = spec(&sim.Spec{Path: true, Adds: []*sim.Client{client(&refmls.MemberOpts{Identity: []byte("plain")}, lib)}, AddLib: []bool{lib}})
		if i%2 == 0 {
			w.Commit(spec(&sim.Spec{Path: true, H: refmls.Hooks{LeafPre: func(l *refmls.LeafNode) { l.Cred = was }}}))
		} else {
			sp.Removes = []*sim.Member{w.Members[len(w.Members)-1]}
		}
		w.Commit(sp)
		w.Agree()
		x.Seen("trade|end|%d|%v|%d", w.S.ID, lib, i%2)
		w.Commit(spec(&sim.Spec{Path: true, Removes: []*sim.Member{w.Members[len(w.Members)-1]}}))
		w.Agree()
	}
}
