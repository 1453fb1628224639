package checks

import (
	"fmt"

	mls "github.com/emersion/go-mls"
	"verif.local/harness/refmls"
	"verif.local/harness/run"
	"verif.local/harness/sim"
)

func init() {
	run.Register(&run.Check{
		Prop: "C04", Level: "exploration",
		Rule: "distinct (suite, kind of failed or unused operation, kind of later traffic, tree shape) histories in which a library member behaved like its twin that never saw the operation, and like all its peers",
		Assumptions: []string{
			"a history in which an invalid message is accepted is left to other properties and not judged further",
		},
		MinEvals: 5000, MinSeen: 300,
		Cases: func(tier string, seed int64) []run.Case {
			var out []run.Case
			out = append(out, casesOf("history", scale(tier, 96, 800), seed, nil)...)
			out = append(out, casesOf("rejoin", scale(tier, 16, 80), seed, nil)...)
			return out
		},
		Run: func(x *run.Ctx) {
			if x.Case.Kind == "rejoin" {
				c04Rejoin(x)
			} else {
				c04History(x)
			}
		},
	})
}

// fails delivers a message that should fail to the library member but not to
// its twin; it reports whether it failed.
func (d *den) fails(to *sim.Member, raw []byte) bool {
	var out []byte
	var err error
	d.X.Lib("UnmarshalAndProcessMessage at "+to.Name, func() { out, err = to.Lib.UnmarshalAndProcessMessage(raw) })
	d.X.Eval(1)
	if err != nil && len(out) != 0 {
		d.X.Fail("plaintext", "library member %s returned data with an error", to.Name)
	}
	return err != nil
}

// core members stay.
func (d *den) core(m *sim.Member) bool {
	return m == d.evil || m == d.peer || m == d.third || m == d.near || m == d.far
}

// advance performs a legitimate epoch change.
func (d *den) advance() string {
	r := d.R
	if r.Intn(3) == 0 && len(d.Members) < 14 {
		libs := d.Libs()
		cl, ls := d.NewClients(1 + r.Intn(2))
		d.Invite(libs[r.Intn(len(libs))], cl, ls)
		return "invitation"
	}
	refs := d.Refs()
	sp := &sim.Spec{By: refs[r.Intn(len(refs))], Path: true, Seal: d.RandSeal(), ByRef: r.Intn(2) == 0}
	name := "update"
	switch r.Intn(4) {
	case 0:
		if len(d.Members) < 14 {
			sp.Adds, sp.AddLib = d.NewClients(1 + r.Intn(2))
			sp.Path = r.Intn(2) == 0
			name = fmt.Sprintf("add path=%v", sp.Path)
		}
	case 1:
		for _, m := range d.Members {
			if !d.core(m) && m != sp.By {
				sp.Removes = []*sim.Member{m}
				name = "remove"
				break
			}
		}
	case 2:
		for _, m := range refs {
			if m != sp.By {
				sp.Updates = append(sp.Updates, m)
			}
		}
		name = "updates"
	}
	d.Commit(sp)
	return name
}

// badKP returns a decodable key package that cannot be invited.
func (d *den) badKP() (string, *refmls.KeyPackage) {
	r := d.R
	name := ""
	o := &refmls.MemberOpts{Identity: []byte("bad")}
	switch r.Intn(6) {
	case 0:
		name = "init key"
		o.KPPre = func(k *refmls.KeyPackage) { k.InitKey = refmls.Bytes(r, 1+r.Intn(100)) }
	case 1:
		name = "empty init key"
		o.KPPre = func(k *refmls.KeyPackage) { k.InitKey = []byte{} }
	case 2:
		name = "signature"
		o.KPPost = func(k *refmls.KeyPackage) { k.Sig = flip(k.Sig, 77) }
	case 3:
		name = "cipher suite"
		o.KPPre = func(k *refmls.KeyPackage) { k.Suite = uint16([]int{0, 4, 5, 6, 99}[r.Intn(5)]) }
	case 4:
		name = "expired"
		o.NotBefore, o.NotAfter = unixNow()-50*day, unixNow()-20*day
	case 5:
		name = "leaf signature"
		o.LeafPost = func(l *refmls.LeafNode) { l.Sig = flip(l.Sig, 99) }
	}
	return name, &refmls.NewMember(d.S, r, o).KP
}

// disturb makes library members fail or waste something. It returns a name
// and false if the outcome leaves the rest of the history undefined.
func (d *den) disturb() (string, bool) {
	r := d.R
	libs := d.Libs()
	lib := libs[r.Intn(len(libs))]
	switch r.Intn(10) {
	case 0, 1, 2: // an invalid commit
		rules := commitRules()
		ru := rules[r.Intn(len(rules))]
		d.public = r.Intn(2) == 0
		t := ru.f(d)
		if t == nil || t.follow || t.local {
			return "", true
		}
		if _, err := d.peer.Ref.Clone().Process(t.raw); err == nil {
			return "", true
		}
		who := t.who
		if who == nil {
			who = libs
		}
		for _, m := range who {
			if !d.fails(m, t.raw) {
				return ru.name, false
			}
		}
		return "commit " + ru.name, true
	case 3: // a forged message
		fs := forgeries()
		fo := fs[r.Intn(len(fs))]
		ct := uint8(1 + r.Intn(3))
		a := &attack{den: d, ct: ct, pub: ct != refmls.ContentApp && r.Intn(2) == 0, old: d.evil.C.M.SigPriv, out: d.evil.Ref, as: d.peer}
		raw := fo.f(a)
		if raw == nil {
			return "", true
		}
		g := d.third.Ref.Clone()
		g.Lenient = false
		if _, err := g.Process(raw); err == nil {
			return "", true
		}
		for _, m := range libs {
			if !d.fails(m, raw) {
				return fo.name, false
			}
		}
		return "forgery " + fo.name, true
	case 4: // damaged, then intact
		var raw, data []byte
		kind := "application message"
		switch r.Intn(2) {
		case 0:
			data = d.SmallPayload()
			raw = d.third.Ref.App(data, &refmls.SealOpts{Pad: r.Intn(30)})
		case 1:
			kind = "proposal"
			raw, _ = d.third.Ref.Propose(pRemove(d.LeafOf(d.peer)), &refmls.SealOpts{Public: r.Intn(2) == 0})
		}
		for k := 0; k < 12; k++ {
			b := append([]byte{}, raw...)
			b[r.Intn(len(b))] ^= byte(1 + r.Intn(255))
			if !d.fails(lib, b) {
				return "damaged " + kind, false
			}
			if v, err := d.evil.Ref.Reveal(raw); err == nil {
				v.Plain = flip(v.Plain, r.Intn(8*len(v.Plain)))
				if !d.fails(lib, d.evil.Ref.Conceal(v)) {
					return "damaged " + kind, false
				}
			}
		}
		if kind == "proposal" {
			d.DeliverProposal(raw, d.third)
		} else {
			for _, m := range d.Members {
				if m != d.third {
					d.ExpectApp(m, raw, data, d.third.Name)
				}
			}
		}
		return "damaged " + kind, true
	case 5: // prepared and discarded
		n := 1 + r.Intn(3)
		for k := 0; k < n; k++ {
			cl, _ := d.NewClients(1 + r.Intn(3))
			d.Prepare(lib, cl)
		}
		return fmt.Sprintf("discarded %d", n), true
	case 6: // an impossible invitation
		name, kp := d.badKP()
		var kps []mls.KeyPackage
		good, _ := d.NewClients(1 + r.Intn(2))
		kps = d.KPs(good)
		bad, err := mls.UnmarshalKeyPackage((&refmls.Member{S: d.S, KP: *kp}).KP.MsgBytes())
		if err != nil {
			return "", true
		}
		at := r.Intn(len(kps) + 1)
		kps = append(kps[:at:at], append([]mls.KeyPackage{*bad}, kps[at:]...)...)
		failed := false
		d.X.Lib("CreateWelcome", func() {
			_, _, err := lib.Lib.CreateWelcome(kps)
			failed = err != nil
		})
		d.X.Eval(1)
		return fmt.Sprintf("invitation with bad %s (failed=%v)", name, failed), true
	case 7: // a refused proposal is not remembered
		_, key := d.S.GenSig(r)
		o := &refmls.SealOpts{Public: r.Intn(2) == 0}
		kind := ""
		switch r.Intn(3) {
		case 0:
			o.SigKey, kind = key, "signature"
		case 1:
			o.Public = true
			o.MemTag, kind = func(b []byte) []byte { return flip(b, r.Intn(8*len(b))) }, "membership tag"
		case 2:
			o.Content, kind = func(c *refmls.FramedContent) { c.Epoch++ }, "epoch"
		}
		g := d.evil.Ref.Clone()
		raw, ref := g.Propose(pRemove(d.LeafOf(d.third)), o)
		for _, m := range libs {
			if !d.fails(m, raw) {
				return "refused proposal", false
			}
		}
		res := g.Commit(&refmls.CommitOpts{List: []refmls.ProposalOrRef{{Ref: ref}}, Path: true, Seal: d.RandSeal()})
		for _, m := range libs {
			if !d.fails(m, res.Raw) {
				d.X.Fail("refused-proposal", "library member %s refused a proposal (bad %s) and later applied a commit that refers to it", m.Name, kind)
			}
		}
		return "refused proposal, bad " + kind, true
	case 8: // replays and foreign messages
		data := d.SmallPayload()
		raw := d.third.Ref.App(data, nil)
		for _, m := range d.Members {
			if m != d.third {
				d.ExpectApp(m, raw, data, d.third.Name)
			}
		}
		if !d.fails(lib, raw) {
			return "replay", false
		}
		if n := len(d.Commits); n > 0 {
			if !d.fails(lib, d.Commits[r.Intn(n)]) {
				return "old commit", false
			}
		}
		other := refmls.Create(d.evil.Ref.Ctx.GroupID, refmls.NewMember(d.S, r, nil), d.Epoch, nil, r)
		if !d.fails(lib, other.App([]byte("x"), nil)) || !d.fails(lib, other.Commit(nil).Raw) {
			return "foreign", false
		}
		return "replay", true
	default: // a pending proposal survives failed commits
		c := d.NewClient(false)
		ref := d.Propose(d.peer, pAdd(c.M), &refmls.SealOpts{Public: r.Intn(2) == 0})
		for k := 0; k < 3; k++ {
			h := refmls.Hooks{}
			switch r.Intn(3) {
			case 0:
				h.ConfTag = func(b []byte) []byte { return flip(b, r.Intn(100)) }
			case 1:
				h.CommitSec = func(b []byte) []byte { return flip(b, r.Intn(100)) }
			case 2:
				h.LeafPost = func(l *refmls.LeafNode) { l.Sig = flip(l.Sig, r.Intn(100)) }
			}
			d.public = r.Intn(2) == 0
			list := []refmls.ProposalOrRef{{Ref: ref}}
			if r.Intn(2) == 0 {
				list = append(list, val(pRemove(d.LeafOf(d.third))))
			}
			bad := d.commit(list, true, h)
			for _, m := range libs {
				if !d.fails(m, bad.Raw) {
					return "pending proposal", false
				}
			}
		}
		// anyone else may still commit it
		res := d.third.Ref.Commit(&refmls.CommitOpts{List: []refmls.ProposalOrRef{{Ref: ref}}, Path: r.Intn(2) == 0, Seal: d.RandSeal()})
		d.Apply(&sim.Spec{By: d.third, Adds: []*sim.Client{c}, AddLib: []bool{false}}, res)
		return "pending proposal", true
	}
}

func c04History(x *run.Ctx) {
	d := newDen(x, func(c *sim.Cfg) { c.Twins = true })
	r := x.Rng
	used := map[string]bool{}
	d.OnLibMsg = func(m *sim.Member, raw []byte, ev *refmls.Event) {
		key := fmt.Sprint(d.Epoch, m.Name, ev.Type == refmls.ContentApp, ev.Gen)
		if ev.Wire == refmls.WirePrivate && used[key] {
			x.Fail("key-reuse", "library member %s used generation %d again in epoch %d", m.Name, ev.Gen, d.Epoch)
		}
		used[key] = true
	}
	for step := 0; step < 14; step++ {
		var names []string
		epoch := d.Epoch
		heard := d.SmallPayload()
		heardRaw := d.peer.Ref.App(heard, nil)
		for _, m := range d.Members {
			if m != d.peer {
				d.ExpectApp(m, heardRaw, heard, d.peer.Name)
			}
		}
		var joining *sim.Client
		var ref []byte
		if r.Intn(3) == 0 {
			joining = d.NewClient(false)
			ref = d.Propose(d.peer, pAdd(joining.M), &refmls.SealOpts{Public: r.Intn(2) == 0})
		}
		for k := 1 + r.Intn(4); k > 0; k-- {
			name, ok := d.disturb()
			x.Log("disturbance: %s", name)
			if !ok {
				x.Stat("accepted invalid message (left to other properties)", 1)
				return
			}
			if name != "" {
				names = append(names, name)
			}
		}
		if d.Epoch == epoch {
			for _, m := range d.Libs() {
				if !d.fails(m, heardRaw) {
					x.Fail("replay", "library member %s returns a message again after %v", m.Name, names)
				}
			}
		}
		later := ""
		k := r.Intn(4)
		if joining != nil && d.Epoch == epoch {
			k = -1
		}
		switch k {
		case -1: // the proposal is still known
			res := d.third.Ref.Commit(&refmls.CommitOpts{List: []refmls.ProposalOrRef{{Ref: ref}}, Path: r.Intn(2) == 0, Seal: d.RandSeal()})
			d.Apply(&sim.Spec{By: d.third, Adds: []*sim.Client{joining}, AddLib: []bool{false}}, res)
			later = "commit of an earlier proposal"
		case 0: // lost races
			later = d.race()
		case 1: // one of several prepared invitations is used
			libs := d.Libs()
			m := libs[r.Intn(len(libs))]
			var invs []*sim.Invitation
			for k := 2 + r.Intn(2); k > 0; k-- {
				invs = append(invs, d.Prepare(m, []*sim.Client{d.NewClient(false)}))
			}
			d.Agree()
			d.Complete(m, invs[r.Intn(len(invs))], []bool{false})
			later = "one of several invitations"
		default:
			d.Agree()
			later = d.advance()
		}
		d.Agree()
		for _, n := range names {
			x.Seen("history|%d|%s|%s", d.S.ID, n, later)
		}
		x.Sample("%v then %s in %s", names, later, d.Shape())
		for len(d.Members) > 14 {
			for _, m := range d.Members {
				if !d.core(m) {
					d.Commit(&sim.Spec{By: d.third, Removes: []*sim.Member{m}, Path: true, Seal: d.RandSeal()})
					break
				}
			}
		}
	}
	d.AgreeAll()
}

// race lets several members prepare commits, of which one wins.
func (d *den) race() string {
	r := d.R
	type entry struct {
		raw   []byte
		apply func()
		who   string
	}
	var es []entry
	for _, m := range d.Libs() {
		if r.Intn(3) == 0 {
			continue
		}
		cl, ls := d.NewClients(1 + r.Intn(2))
		inv := d.Prepare(m, cl)
		es = append(es, entry{inv.Raw, func() { d.Complete(m, inv, ls) }, "lib"})
	}
	for _, m := range []*sim.Member{d.peer, d.third} {
		sp := &sim.Spec{By: m, Path: true, Seal: d.RandSeal()}
		if r.Intn(2) == 0 {
			sp.Adds, sp.AddLib = d.NewClients(1)
		}
		res := d.Build(sp)
		es = append(es, entry{res.Raw, func() { d.Apply(sp, res) }, "ref"})
	}
	win := r.Intn(len(es))
	es[win].apply()
	d.Agree()
	for i, e := range es {
		if i == win {
			continue
		}
		for _, m := range d.Libs() {
			if !d.fails(m, e.raw) {
				d.X.Fail("two-commits", "library member %s applied a second commit of an epoch that is over", m.Name)
			}
		}
	}
	return fmt.Sprintf("race of %d won by %s", min(len(es), 4), es[win].who)
}

// c04Rejoin: a failed attempt to join leaves the key package usable.
func c04Rejoin(x *run.Ctx) {
	d := newDen(x, nil)
	r := x.Rng
	for k := 0; k < 6; k++ {
		v := d.NewClient(true)
		sp := &sim.Spec{By: d.third, Adds: []*sim.Client{v}, AddLib: []bool{true}, Path: r.Intn(2) == 0, Seal: d.RandSeal()}
		rules := joinRules()
		for i := 0; i < 8; i++ {
			ru := rules[r.Intn(len(rules))]
			if ru.victim != nil {
				continue
			}
			w := ru.f(d, v)
			if w == nil {
				continue
			}
			if _, err := tryJoin(x, v, w.MsgBytes()); err == nil {
				x.Stat("accepted invalid message (left to other properties)", 1)
				return
			}
			x.Seen("rejoin|%d|%s", d.S.ID, ru.name)
		}
		res := d.Build(sp)
		raw := res.Welcome.MsgBytes()
		for i := 0; i < 10; i++ {
			b := append([]byte{}, raw...)
			b[r.Intn(len(b))] ^= byte(1 + r.Intn(255))
			if _, err := tryJoin(x, v, b); err == nil {
				// an entry of another member
				x.Stat("harmless damage", 1)
			}
			x.Eval(1)
		}
		d.Apply(sp, res)
		d.Agree()
	}
}
