package checks

import (
	"bytes"
	"fmt"
	"maps"
	"slices"
	"strings"

	mls "github.com/emersion/go-mls"
	"verif.local/harness/refmls"
	"verif.local/harness/run"
	"verif.local/harness/sim"
)

// kdfUnderTest are the derivations of the library.
type kdfUnderTest struct {
	expand     func(cs uint16, secret []byte, label string, context []byte, n uint16) ([]byte, error)
	derive     func(cs uint16, secret []byte, label string) ([]byte, error)
	ref        func(cs uint16, label string, value []byte) ([]byte, error)
	joiner     func(ctx, init, commit []byte) ([]byte, error)
	epoch      func(ctx, joiner, psk []byte) ([]byte, error)
	welcome    func(cs uint16, joiner, psk []byte) ([]byte, error)
	labels     func() map[string]string
	exporter   func(cs uint16, secret []byte, label string, context []byte, n uint16) ([]byte, error)
	psk        func(cs uint16, ids, psks [][]byte) ([]byte, error)
	transcript func(cs uint16, ac, interim, key []byte) (confirmed, next []byte, ok bool, err error)
	senderData func(cs uint16, secret, ciphertext []byte) (key, nonce []byte, err error)
	tree       func(cs uint16, leaves uint32, secret []byte) (func(leaf uint32, application bool, gens int, f func(gen uint32, key, nonce []byte)) error, error)
	sign       func(cs uint16, priv []byte, label string, content []byte) ([]byte, error)
	verify     func(cs uint16, pub []byte, label string, content, sig []byte) bool
	seal       func(cs uint16, pub []byte, label string, context, plain []byte) (kem, ct []byte, err error)
	open       func(cs uint16, priv []byte, label string, context, kem, ct []byte) ([]byte, error)
	nodeKey    func(cs uint16, pathSecret, pub []byte) ([]byte, error)
	join       func(w *mls.Welcome, kpp *mls.KeyPairPackage, key func(id []byte) []byte) (*mls.Group, error)
	commit     func(g *mls.Group, raw []byte, key func(id []byte) []byte) error
	secret     func(g *mls.Group) []byte
}

// wbKDF is nil when the monitors were built without access to the internals.
var wbKDF *kdfUnderTest

func init() {
	run.Register(&run.Check{
		Prop: "C18", Level: "exploration",
		Rule: "distinct (derivation, cipher suite, class of its inputs) that were compared with the reference, plus (kind of group run, suite, size or generation class)",
		Assumptions: []string{
			"the reference derivations are validated by the official vectors",
			"derivations without exported function are called directly when these exist under their present names, and otherwise only observed through messages, references and confirmation tags",
			"no exported function takes pre-shared keys, so that groups with such keys are driven through internal functions and not at all when these were renamed",
		},
		MinEvals: 3000, MinSeen: 60,
		Cases: func(tier string, seed int64) []run.Case {
			var out []run.Case
			if wbKDF != nil {
				for _, s := range []int64{1, 2, 3, 4, 5, 6, 7} {
					p := map[string]int64{"suite": s}
					out = append(out, casesOf("derivations", scale(tier, 12, 120), seed, p)...)
					out = append(out, casesOf("pre-shared keys", scale(tier, 6, 60), seed, p)...)
					out = append(out, casesOf("secret tree", scale(tier, 8, 60), seed, p)...)
				}
				for _, s := range refmls.Supported {
					p := map[string]int64{"suite": int64(s)}
					out = append(out, casesOf("key pairs", scale(tier, 3, 20), seed, p)...)
					out = append(out, casesOf("keyed group", scale(tier, 10, 100), seed, p)...)
				}
				out = append(out, casesOf("many keys", scale(tier, 4, 20), seed, nil)...)
			}
			for _, s := range refmls.Supported {
				p := map[string]int64{"suite": int64(s)}
				out = append(out, casesOf("epochs", scale(tier, 4, 40), seed, p)...)
				out = append(out, casesOf("leaves", scale(tier, 6, 40), seed, p)...)
				out = append(out, casesOf("generations", scale(tier, 4, 30), seed, p)...)
				out = append(out, casesOf("references", scale(tier, 4, 30), seed, p)...)
			}
			return out
		},
		Run: func(x *run.Ctx) {
			s := refmls.GetSuite(uint16(x.P("suite")))
			switch x.Case.Kind {
			case "derivations":
				c18Derivations(x, s)
			case "pre-shared keys":
				c18PSKs(x, s)
			case "secret tree":
				c18SecretTree(x, s)
			case "key pairs":
				c18Pairs(x, s)
			case "keyed group":
				c18Keyed(x, s)
			case "many keys":
				c18ManyKeys(x)
			case "epochs":
				c18Epochs(x, s)
			case "leaves":
				c18Leaves(x, s)
			case "generations":
				c18Generations(x, s)
			case "references":
				c18References(x, s)
			}
		},
	})
}

// derived compares a derivation with the reference.
func derived(x *run.Ctx, s *refmls.Suite, what, class string, want []byte, f func() ([]byte, error)) {
	var got []byte
	var err error
	x.Lib(what, func() { got, err = f() })
	x.Eval(1)
	if err != nil {
		x.Fail(what, "%s (suite %d, %s) failed: %v", what, s.ID, class, err)
	}
	if !bytes.Equal(got, want) {
		x.Fail(what, "%s (suite %d, %s) is %x, RFC 9420 says %x", what, s.ID, class, got, want)
	}
	x.Seen(fmt.Sprintf("%s/%d/%s", what, s.ID, class))
}

func (g *gen) label() string {
	if g.r.Intn(3) == 0 {
		return []string{"", "x", "MLS 1.0 ", "tree", "node", "path", strings.Repeat("l", 55), strings.Repeat("l", 56), strings.Repeat("l", 248)}[g.r.Intn(9)]
	}
	return string(g.bytes())
}

func (g *gen) length(nh int) int {
	switch g.r.Intn(5) {
	case 0:
		return []int{0, 1, nh - 1, nh, nh + 1, 2 * nh, 255, 256, 257, 255 * nh}[g.r.Intn(10)]
	case 1:
		return g.r.Intn(255 * nh)
	}
	return g.r.Intn(3 * nh)
}

func lenClass(n int) string {
	switch {
	case n == 0:
		return "empty"
	case n < 64:
		return "short"
	case n < 256:
		return "byte"
	case n < 16384:
		return "medium"
	case n < 65536:
		return "long"
	}
	return "very long"
}

func c18Derivations(x *run.Ctx, s *refmls.Suite) {
	g := &gen{r: x.Rng, big: true}
	nh := s.Nh()
	sec := func() []byte { return refmls.Bytes(x.Rng, nh) }
	for i := 0; i < 60; i++ {
		k, l, c, n := sec(), g.label(), g.bytes(), g.length(nh)
		derived(x, s, "ExpandWithLabel", lenClass(len(l))+" label "+lenClass(len(c))+" context "+lenClass(n)+" output", s.ExpandWithLabel(k, l, c, n),
			func() ([]byte, error) { return wbKDF.expand(s.ID, k, l, c, uint16(n)) })
		derived(x, s, "DeriveSecret", lenClass(len(l))+" label", s.DeriveSecret(k, l),
			func() ([]byte, error) { return wbKDF.derive(s.ID, k, l) })
		derived(x, s, "RefHash", lenClass(len(l))+" label "+lenClass(len(c))+" value", s.RefHash(l, c),
			func() ([]byte, error) { return wbKDF.ref(s.ID, l, c) })
		derived(x, s, "exporter", lenClass(len(l))+" label "+lenClass(len(c))+" context "+lenClass(n)+" output", refmls.Exporter(s, k, l, c, n),
			func() ([]byte, error) { return wbKDF.exporter(s.ID, k, l, c, uint16(n)) })

		ctx := g.context()
		ctx.Suite = s.ID
		cls := fmt.Sprintf("group ID %s, tree hash %s, transcript %s, %d extensions", lenClass(len(ctx.GroupID)), lenClass(len(ctx.TreeHash)), lenClass(len(ctx.CTH)), min(len(ctx.Exts), 2))
		psk, psks := sec(), "some"
		if x.Rng.Intn(3) == 0 {
			psk, psks = make([]byte, nh), "zero"
		}
		com := sec()
		if x.Rng.Intn(3) == 0 {
			com = make([]byte, nh)
		}
		derived(x, s, "joiner secret", cls, refmls.JoinerSecret(s, k, com, ctx),
			func() ([]byte, error) { return wbKDF.joiner(ctx.Bytes(), k, com) })
		w, e := refmls.EpochSecrets(s, k, psk, ctx)
		derived(x, s, "epoch secret", cls, e, func() ([]byte, error) { return wbKDF.epoch(ctx.Bytes(), k, psk) })
		derived(x, s, "welcome secret", psks+" pre-shared key secret", w, func() ([]byte, error) { return wbKDF.welcome(s.ID, k, psk) })
		labels := wbKDF.labels()
		for name, l := range labels {
			derived(x, s, "epoch secret for "+name, "", s.DeriveSecret(e, name), func() ([]byte, error) { return wbKDF.derive(s.ID, e, l) })
		}

		ct := g.bytes()
		if x.Rng.Intn(2) == 0 {
			ct = refmls.Bytes(x.Rng, nh-2+x.Rng.Intn(5))
		}
		key, nonce := refmls.SenderDataKey(s, k, ct)
		at := "more than a sample"
		if len(ct) == nh {
			at = "one sample"
		} else if len(ct) < nh {
			at = "less than a sample"
		}
		derived(x, s, "sender data key and nonce", at, append(slices.Clone(key), nonce...), func() ([]byte, error) {
			k, n, err := wbKDF.senderData(s.ID, k, ct)
			return append(slices.Clone(k), n...), err
		})

		c18Transcript(x, g, s)
	}
}

func c18Transcript(x *run.Ctx, g *gen, s *refmls.Suite) {
	ac := &refmls.AuthContent{Wire: refmls.WirePrivate}
	if x.Rng.Intn(2) == 0 {
		ac.Wire = refmls.WirePublic
	}
	for {
		ac.Content = *g.content(false)
		if ac.Content.Type == refmls.ContentCommit {
			break
		}
	}
	interim := refmls.Bytes(x.Rng, s.Nh())
	if x.Rng.Intn(4) == 0 {
		interim = nil
	}
	key := refmls.Bytes(x.Rng, s.Nh())
	ac.Auth = g.auth(ac.Content.Type)
	confirmed := refmls.ConfirmedHash(s, interim, ac)
	tag := s.MAC(key, confirmed)
	right := true
	switch x.Rng.Intn(6) {
	case 0:
		ac.Auth.ConfTag, right = flip(tag, x.Rng.Intn(len(tag))), false
	case 1:
		ac.Auth.ConfTag, right = tag[:x.Rng.Intn(len(tag))], false
	case 2:
		ac.Auth.ConfTag, right = append(slices.Clone(tag), 0), false
	case 3:
		right = bytes.Equal(ac.Auth.ConfTag, tag)
	default:
		ac.Auth.ConfTag = tag
	}
	var c, n []byte
	var ok bool
	var err error
	x.Lib("transcript hashes", func() { c, n, ok, err = wbKDF.transcript(s.ID, ac.Bytes(), interim, key) })
	x.Eval(3)
	if err != nil {
		x.Fail("transcript", "transcript hashes (suite %d) failed: %v", s.ID, err)
	}
	if !bytes.Equal(c, confirmed) {
		x.Fail("confirmed", "confirmed transcript hash (suite %d) is %x, RFC 9420 says %x, for %x", s.ID, c, confirmed, ac.Bytes())
	}
	if want := refmls.InterimHash(s, confirmed, ac.Auth.ConfTag); !bytes.Equal(n, want) {
		x.Fail("interim", "interim transcript hash (suite %d) is %x, RFC 9420 says %x, for %x", s.ID, n, want, ac.Bytes())
	}
	if ok != right {
		x.Fail("confirmation", "confirmation tag %x (suite %d) is taken as right: %v, RFC 9420 says %x", ac.Auth.ConfTag, s.ID, ok, tag)
	}
	x.Seen(fmt.Sprintf("transcript/%d/wire %d/%d proposals/path %v/tag %s/right %v", s.ID, ac.Wire, min(len(ac.Content.Commit.Proposals), 2), ac.Content.Commit.Path != nil, lenClass(len(ac.Auth.ConfTag)), right))
}

func c18PSKs(x *run.Ctx, s *refmls.Suite) {
	g := &gen{r: x.Rng}
	counts := []int{0, 1, 2, 3, 5, 17, 100 + x.Rng.Intn(100), 254, 255, 256, 257, 300 + x.Rng.Intn(400)}
	if x.Rng.Intn(6) == 0 {
		counts = append(counts, 4096+x.Rng.Intn(4))
	}
	for _, n := range counts {
		var ids []refmls.PSKID
		var raw, psks [][]byte
		for i := 0; i < n; i++ {
			id := g.psk()
			ids = append(ids, *id)
			raw = append(raw, id.Bytes())
			psks = append(psks, g.bytes())
		}
		derived(x, s, "pre-shared key secret", fmt.Sprintf("%d keys", min(n, 260)/4*4), refmls.PSKSecret(s, ids, psks), func() ([]byte, error) { return wbKDF.psk(s.ID, raw, psks) })
		if n == 0 {
			continue
		}
		// A wrong number of keys is an error.
		var err error
		x.Lib("pre-shared key secret", func() { _, err = wbKDF.psk(s.ID, raw, psks[1:]) })
		x.Eval(1)
		if err == nil {
			x.Fail("missing", "pre-shared key secret (suite %d) of %d identifiers and %d keys", s.ID, n, n-1)
		}
	}
}

func c18SecretTree(x *run.Ctx, s *refmls.Suite) {
	lvl := x.Rng.Intn(8)
	if x.Rng.Intn(5) == 0 {
		lvl = 8 + x.Rng.Intn(4)
	}
	n := uint32(1) << lvl
	secret := refmls.Bytes(x.Rng, s.Nh())
	var f func(leaf uint32, application bool, gens int, f func(gen uint32, key, nonce []byte)) error
	var err error
	x.Lib("secret tree", func() { f, err = wbKDF.tree(s.ID, n, secret) })
	if err != nil {
		x.Fail("tree", "secret tree (suite %d, %d leaves) failed: %v", s.ID, n, err)
	}
	leaves := map[uint32]bool{0: true, n - 1: true, n / 2: true}
	for i := 0; i < 60; i++ {
		leaves[uint32(x.Rng.Intn(int(n)))] = true
	}
	deep := []uint32{0, uint32(x.Rng.Intn(int(n)))}
	for _, li := range slices.Sorted(maps.Keys(leaves)) {
		gens := 3
		if slices.Contains(deep, li) {
			gens = 300
		}
		leafSecret := refmls.TreeSecret(s, secret, int(2*n-1), li)
		for _, app := range []bool{false, true} {
			label := map[bool]string{false: "handshake", true: "application"}[app]
			at := uint32(0)
			x.Lib("secret tree", func() {
				err = f(li, app, gens, func(gen uint32, key, nonce []byte) {
					x.Eval(2)
					if gen != at {
						x.Fail("generation", "generation after %d steps is %d", at, gen)
					}
					k, n0 := refmls.RatchetKey(s, leafSecret, label, at)
					if !bytes.Equal(k, key) || !bytes.Equal(n0, nonce) {
						x.Fail("ratchet", "%s key and nonce (suite %d, leaf %d of %d, generation %d) are %x %x, RFC 9420 says %x %x", label, s.ID, li, n, at, key, nonce, k, n0)
					}
					at++
				})
			})
			if err != nil || at != uint32(gens) {
				x.Fail("ratchet", "%s ratchet (suite %d, leaf %d of %d) ended at generation %d: %v", label, s.ID, li, n, at, err)
			}
			x.Seen(fmt.Sprintf("%s ratchet/%d/%d leaves", label, s.ID, n))
		}
	}
}

// c18Pairs checks what the private and public operations put under a label.
func c18Pairs(x *run.Ctx, s *refmls.Suite) {
	g := &gen{r: x.Rng, big: true}
	for i := 0; i < 8; i++ {
		l, c, d := g.label(), g.bytes(), g.bytes()
		pub, priv := s.GenSig(x.Rng)
		var sig []byte
		var err error
		var ok, bad bool
		x.Lib("sign", func() {
			sig, err = wbKDF.sign(s.ID, priv, l, d)
			ok = wbKDF.verify(s.ID, pub, l, d, s.SignWithLabel(priv, l, d))
			bad = wbKDF.verify(s.ID, pub, l, d, s.SignWithLabel(priv, l+"x", d))
		})
		x.Eval(3)
		if err != nil || !s.VerifyWithLabel(pub, l, d, sig) {
			x.Fail("sign", "signature with label %q (suite %d) over %d bytes is not the one of RFC 9420 (%v)", l, s.ID, len(d), err)
		}
		if !ok || bad {
			x.Fail("verify", "verification with label %q (suite %d) over %d bytes: right label %v, wrong label %v", l, s.ID, len(d), ok, bad)
		}

		pub, priv = s.GenKEM(x.Rng)
		var kem, ct, plain []byte
		theirs, err := s.EncryptWithLabel(pub, l, c, d)
		if err != nil {
			panic(err)
		}
		x.Lib("encrypt", func() {
			kem, ct, err = wbKDF.seal(s.ID, pub, l, c, d)
			if err == nil {
				plain, err = wbKDF.open(s.ID, priv, l, c, theirs.Kem, theirs.Ct)
			}
		})
		x.Eval(2)
		if err != nil || !bytes.Equal(plain, d) {
			x.Fail("open", "decryption with label %q (suite %d) of %d bytes with context of %d bytes: %v", l, s.ID, len(d), len(c), err)
		}
		if plain, err = s.DecryptWithLabel(priv, l, c, refmls.HPKECt{Kem: kem, Ct: ct}); err != nil || !bytes.Equal(plain, d) {
			x.Fail("seal", "encryption with label %q (suite %d) of %d bytes with context of %d bytes is not the one of RFC 9420: %v", l, s.ID, len(d), len(c), err)
		}

		path := refmls.Bytes(x.Rng, s.Nh())
		npub, npriv, err := s.DeriveKP(s.DeriveSecret(path, "node"))
		if err != nil {
			panic(err)
		}
		var got []byte
		x.Lib("node key", func() { got, err = wbKDF.nodeKey(s.ID, path, npub) })
		x.Eval(1)
		if err == nil {
			got, err = s.KEMPub(got)
		}
		if err != nil || !bytes.Equal(got, npub) {
			x.Fail("node", "node key pair (suite %d) of path secret %x is not %x: %v", s.ID, path, npriv, err)
		}
		x.Seen(fmt.Sprintf("labelled/%d/%s label %s context %s data", s.ID, lenClass(len(l)), lenClass(len(c)), lenClass(len(d))))
	}
}

// keyring looks pre-shared keys up; it can be made to answer wrongly.
type keyring struct {
	g     *refmls.Group
	wrong func(i int, key []byte) []byte
	n     int
}

func (k *keyring) key(raw []byte) []byte {
	id := new(refmls.PSKID)
	r := &refmls.R{B: raw}
	id.Get(r)
	if err := r.End(); err != nil {
		panic(err)
	}
	key := k.g.PSK(id)
	if k.wrong != nil {
		key = k.wrong(k.n, key)
	}
	k.n++
	return key
}

// pskIDs makes identifiers of keys that g knows.
func pskIDs(x *run.Ctx, g *refmls.Group, n int) (out []refmls.PSKID) {
	if g.PSKs == nil {
		g.PSKs = map[string][]byte{}
	}
	gg := &gen{r: x.Rng}
	for i := 0; i < n; i++ {
		id := refmls.PSKID{Type: refmls.PSKExternal, Nonce: refmls.Bytes(x.Rng, g.S.Nh())}
		switch {
		case x.Rng.Intn(3) == 0 && g.PSK(&refmls.PSKID{Type: refmls.PSKResumption, GroupID: g.Ctx.GroupID, Epoch: g.Ctx.Epoch}) != nil:
			id.Type, id.Usage, id.GroupID, id.Epoch = refmls.PSKResumption, 1, g.Ctx.GroupID, g.Ctx.Epoch
			for d := uint64(x.Rng.Intn(4)); d > 0; d-- {
				old := id
				old.Epoch -= d
				if g.PSK(&old) != nil {
					id = old
					break
				}
			}
		case x.Rng.Intn(4) == 0 && len(g.PSKs) > 0:
			// The same key once more, with another nonce.
			id.ID = []byte(slices.Sorted(maps.Keys(g.PSKs))[x.Rng.Intn(len(g.PSKs))])
		default:
			id.ID = append(refmls.Bytes(x.Rng, 4), gg.bytes()...)
			g.PSKs[string(id.ID)] = gg.bytes()
		}
		out = append(out, id)
	}
	return out
}

func wrongKeys(x *run.Ctx, ids []refmls.PSKID, g *refmls.Group) (how string, f func(i int, key []byte) []byte) {
	at := x.Rng.Intn(len(ids))
	switch x.Rng.Intn(6) {
	case 0:
		return "one is longer by a zero byte", func(i int, key []byte) []byte {
			if i == at {
				return append(slices.Clone(key), 0)
			}
			return key
		}
	case 1:
		return "one is absent", func(i int, key []byte) []byte {
			if i == at && len(key) > 0 {
				return nil
			}
			if i == at {
				return []byte{1}
			}
			return key
		}
	case 2:
		other := x.Rng.Intn(len(ids))
		if !bytes.Equal(g.PSK(&ids[at]), g.PSK(&ids[other])) {
			return "two are exchanged", func(i int, key []byte) []byte {
				if i == at {
					return g.PSK(&ids[other])
				}
				if i == other {
					return g.PSK(&ids[at])
				}
				return key
			}
		}
	case 3:
		return "the first is changed", func(i int, key []byte) []byte {
			if i == 0 {
				return append([]byte{7}, key...)
			}
			return key
		}
	case 4:
		return "the last is changed", func(i int, key []byte) []byte {
			if i == len(ids)-1 {
				return append([]byte{7}, key...)
			}
			return key
		}
	}
	return "one bit differs", func(i int, key []byte) []byte {
		if i != at {
			return key
		}
		if len(key) == 0 {
			return []byte{0}
		}
		return flip(key, x.Rng.Intn(len(key)))
	}
}

func propsOf(ids []refmls.PSKID) (out []refmls.ProposalOrRef) {
	for i := range ids {
		out = append(out, val(&refmls.Proposal{Type: refmls.PropPSK, PSK: &ids[i]}))
	}
	return
}

// keyed commits pre-shared keys to a group that the library member is in.
func (p *puppets) keyed(ids []refmls.PSKID, adds int, path bool) {
	x := p.x
	by := p.others()[0]
	p.log = append(p.log, fmt.Sprintf("{by %d %d keys add %d path %v}", by, len(ids), adds, path))
	list := propsOf(ids)
	var ms []*refmls.Member
	for i := 0; i < adds; i++ {
		ms = append(ms, p.member())
	}
	list = append(list, addsOf(ms)...)
	// Some arrive before the commit, by another member.
	for i := range list {
		if list[i].Proposal.Type == refmls.PropPSK && len(list) < 20 && p.r.Intn(3) == 0 {
			g := p.as(p.others()[0])
			raw, ref := g.Propose(list[i].Proposal, &refmls.SealOpts{Public: p.r.Intn(2) == 0, Gen: u32(uint32(i))})
			p.give("proposal of a pre-shared key", raw)
			p.g.Pending = append(p.g.Pending, g.Pending[len(g.Pending)-1])
			list[i] = refmls.ProposalOrRef{Ref: ref}
		}
	}
	path = path || len(list) == 0
	res := p.as(by).Commit(&refmls.CommitOpts{List: list, Path: path, Seal: refmls.SealOpts{Public: true}})
	var err error
	for i := 0; i < 2 && len(ids) > 0; i++ {
		how, f := wrongKeys(x, ids, p.g)
		x.Lib("commit with wrong pre-shared keys", func() { err = wbKDF.commit(p.lib, res.Raw, (&keyring{g: p.g, wrong: f}).key) })
		x.Eval(1)
		if err == nil {
			x.Fail("wrong", "library member agrees to a commit with %d pre-shared keys when %s (suite %d, %s)", len(ids), how, p.s.ID, p.shape())
		}
		x.Seen(fmt.Sprintf("commit/%d/%s", p.s.ID, how))
	}
	if len(ids) > 0 {
		// A member without any keys cannot follow.
		x.Lib("commit without pre-shared keys", func() { _, err = p.lib.UnmarshalAndProcessMessage(res.Raw) })
		x.Eval(1)
		if err == nil {
			x.Fail("absent", "library member accepts a commit with %d pre-shared keys without having them (suite %d, %s)", len(ids), p.s.ID, p.shape())
		}
	}
	x.Lib("commit with pre-shared keys", func() { err = wbKDF.commit(p.lib, res.Raw, (&keyring{g: p.g}).key) })
	x.Eval(1)
	if err != nil {
		x.Fail("refused", "library member refuses a valid commit with %d pre-shared keys (suite %d, %s): %v", len(ids), p.s.ID, p.shape(), err)
	}
	p.g = res.Next
	p.sameSecret()
	x.Seen(fmt.Sprintf("commit/%d/%d keys/path %v/adds %d", p.s.ID, min(len(ids), 6), path, adds))
}

func (p *puppets) sameSecret() {
	var got []byte
	p.x.Lib("epoch secret", func() { got = wbKDF.secret(p.lib) })
	p.x.Eval(1)
	if !bytes.Equal(got, p.g.EpochSecret) {
		p.x.Fail("epoch secret", "epoch secret of the library member is %x, that of a conforming member %x (suite %d, %s)", got, p.g.EpochSecret, p.s.ID, p.shape())
	}
}

// invited adds the library member with a commit that has pre-shared keys.
func (p *puppets) invited(ids []refmls.PSKID, path bool) {
	x := p.x
	kpp := sim.LibClientFrom(x, p.libC)
	res := p.g.Commit(&refmls.CommitOpts{List: append(propsOf(ids), val(pAdd(p.libC))), Path: path})
	var w *mls.Welcome
	var err error
	x.Lib("UnmarshalWelcome", func() { w, err = mls.UnmarshalWelcome(res.Welcome.MsgBytes()) })
	if err != nil {
		x.Fail("welcome", "a valid Welcome with %d pre-shared keys does not decode: %v", len(ids), err)
	}
	for i := 0; i < 3 && len(ids) > 0; i++ {
		how, f := wrongKeys(x, ids, p.g)
		x.Lib("Welcome with wrong pre-shared keys", func() { _, err = wbKDF.join(w, kpp, (&keyring{g: p.g, wrong: f}).key) })
		x.Eval(1)
		if err == nil {
			x.Fail("wrong", "client joins with %d pre-shared keys when %s (suite %d)", len(ids), how, p.s.ID)
		}
		x.Seen(fmt.Sprintf("join/%d/%s", p.s.ID, how))
	}
	if len(ids) > 0 {
		x.Lib("GroupFromWelcome", func() { _, err = mls.GroupFromWelcome(w, kpp) })
		x.Eval(1)
		if err == nil {
			x.Fail("absent", "client joins a group with %d pre-shared keys without having them (suite %d)", len(ids), p.s.ID)
		}
	}
	x.Lib("Welcome with pre-shared keys", func() { p.lib, err = wbKDF.join(w, kpp, (&keyring{g: p.g}).key) })
	x.Eval(1)
	if err != nil {
		x.Fail("refused", "client cannot join with the right %d pre-shared keys (suite %d): %v", len(ids), p.s.ID, err)
	}
	p.g = res.Next
	p.sameSecret()
	p.agree()
	x.Seen(fmt.Sprintf("join/%d/%d keys/path %v", p.s.ID, min(len(ids), 6), path))
}

// keyedGroup makes a group of n members without the library member.
func keyedGroup(x *run.Ctx, s *refmls.Suite, n int) *puppets {
	p := &puppets{x: x, r: x.Rng, s: s, sig: map[string][]byte{}}
	p.libC = refmls.NewMember(s, p.r, &refmls.MemberOpts{Identity: []byte("lib")})
	p.g = refmls.Create(randGID(x.Rng), p.member(), randEpoch(x.Rng), nil, p.r)
	if n > 1 {
		var ms []*refmls.Member
		for i := 1; i < n; i++ {
			ms = append(ms, p.member())
		}
		p.g = p.g.Commit(&refmls.CommitOpts{List: addsOf(ms), Path: true}).Next
	}
	return p
}

func c18Keyed(x *run.Ctx, s *refmls.Suite) {
	p := keyedGroup(x, s, 1+x.Rng.Intn(5))
	for i := x.Rng.Intn(3); i > 0; i-- {
		p.g = p.g.Commit(&refmls.CommitOpts{Path: true}).Next
	}
	p.invited(pskIDs(x, p.g, x.Rng.Intn(5)), x.Rng.Intn(2) == 0)
	for i := 0; i < 6; i++ {
		if len(p.others()) > 1 && x.Rng.Intn(3) == 0 {
			p.step(2)
		} else {
			p.keyed(pskIDs(x, p.g, x.Rng.Intn(4)), x.Rng.Intn(2), x.Rng.Intn(2) == 0)
		}
		p.agree()
	}
}

func c18ManyKeys(x *run.Ctx) {
	s := refmls.GetSuite(refmls.Supported[x.Rng.Intn(len(refmls.Supported))])
	p := keyedGroup(x, s, 2)
	p.invited(pskIDs(x, p.g, 250+x.Rng.Intn(80)), true)
	p.keyed(pskIDs(x, p.g, 255+x.Rng.Intn(80)), 1, true)
	p.agree()
}

func newPuppetsAnywhere(x *run.Ctx, s *refmls.Suite, n int) *puppets {
	p := newPuppets(x, s, n, x.Rng.Intn(n))
	return p
}

// c18Epochs follows a chain of epochs. Each derives from the one before, so a
// wrong secret shows as a refusal or in the messages.
func c18Epochs(x *run.Ctx, s *refmls.Suite) {
	p := newPuppetsAnywhere(x, s, 2+x.Rng.Intn(4))
	for i := 0; i < 25; i++ {
		p.step(2)
		p.agree()
		if wbKDF != nil {
			p.sameSecret()
		}
		x.Seen(fmt.Sprintf("epochs/%d/%s", s.ID, sizeClass(i)))
	}
}

// c18Leaves has every leaf of a group send in each way.
func c18Leaves(x *run.Ctx, s *refmls.Suite) {
	n := 2 + x.Rng.Intn(40)
	p := newPuppetsAnywhere(x, s, n)
	for _, li := range p.others() {
		v := p.as(li)
		gen := uint32(x.Rng.Intn(3))
		v.AppGen = gen
		data := refmls.Bytes(x.Rng, x.Rng.Intn(50))
		raw := v.App(data, &refmls.SealOpts{AAD: refmls.Bytes(x.Rng, x.Rng.Intn(3)), Pad: x.Rng.Intn(3) * 100})
		var out []byte
		var err error
		x.Lib("UnmarshalAndProcessMessage", func() { out, err = p.lib.UnmarshalAndProcessMessage(raw) })
		x.Eval(1)
		if err != nil || !bytes.Equal(out, data) {
			x.Fail("leaf", "library member cannot read a message of leaf %d of %d at generation %d (suite %d): %v", li, n, gen, s.ID, err)
		}
		v = p.as(li)
		raw, _ = v.Propose(pRemove(p.libLeaf()), &refmls.SealOpts{Gen: &gen})
		p.give(fmt.Sprintf("private proposal of leaf %d at generation %d", li, gen), raw)
		x.Seen(fmt.Sprintf("leaves/%d/%d leaves", s.ID, p.g.Tree.NumLeaves()))
	}
}

// c18Generations has both sides send many messages in one epoch.
func c18Generations(x *run.Ctx, s *refmls.Suite) {
	p := newPuppetsAnywhere(x, s, 2+x.Rng.Intn(6))
	from := p.others()[0]
	v := p.as(from)
	v.Lenient = true
	gens := map[uint32]bool{}
	for i := 0; i < 40; i++ {
		gens[uint32(i)] = true
	}
	for _, k := range []uint32{63, 64, 127, 128, 200, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 2000} {
		gens[k] = true
	}
	if x.Rng.Intn(4) == 0 {
		gens[65535], gens[65536], gens[65537] = true, true, true
	}
	order := slices.Sorted(maps.Keys(gens))
	if x.Rng.Intn(2) == 0 {
		x.Rng.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	}
	for _, gen := range order {
		data := refmls.Bytes(x.Rng, x.Rng.Intn(20))
		raw := v.App(data, &refmls.SealOpts{Gen: &gen})
		var out []byte
		var err error
		x.Lib("UnmarshalAndProcessMessage", func() { out, err = p.lib.UnmarshalAndProcessMessage(raw) })
		x.Eval(1)
		if err != nil || !bytes.Equal(out, data) {
			x.Fail("generation", "library member cannot read a message of leaf %d at generation %d (suite %d): %v", from, gen, s.ID, err)
		}
		raw, _ = v.Propose(pRemove(p.libLeaf()), &refmls.SealOpts{Gen: &gen})
		p.give(fmt.Sprintf("private proposal at generation %d", gen), raw)
		x.Seen(fmt.Sprintf("generations/%d/%s", s.ID, lenClass(int(gen))))
	}
	for i := 0; i < 300; i++ {
		data := refmls.Bytes(x.Rng, x.Rng.Intn(20))
		var raw []byte
		var err error
		x.Lib("CreateApplicationMessage", func() { raw, err = p.lib.CreateApplicationMessage(data) })
		if err != nil {
			x.Fail("send", "library member cannot send message %d (suite %d): %v", i, s.ID, err)
		}
		_, ev, err := v.Open(raw)
		x.Eval(1)
		if err != nil || !bytes.Equal(ev.App, data) {
			x.Fail("sent", "conforming member cannot read message %d of the library member (suite %d): %v", i, s.ID, err)
		}
	}
	x.Seen(fmt.Sprintf("sent/%d", s.ID))
}

// c18References compares the references of key packages.
func c18References(x *run.Ctx, s *refmls.Suite) {
	g := &gen{r: x.Rng, big: true}
	for i := 0; i < 30; i++ {
		kp := g.keyPackage()
		kp.Version, kp.Suite = 1, s.ID
		if x.Rng.Intn(2) == 0 {
			kp = refmls.NewMember(s, x.Rng, nil).KP.Clone()
		}
		var ref mls.KeyPackageRef
		var err error
		raw := (&refmls.Message{Wire: refmls.WireKeyPackage, KeyPackage: kp}).Bytes()
		x.Lib("GenerateRef", func() {
			var k *mls.KeyPackage
			if k, err = mls.UnmarshalKeyPackage(raw); err == nil {
				ref, err = k.GenerateRef()
			}
		})
		x.Eval(1)
		if err != nil {
			x.Fail("reference", "no reference for a key package (suite %d): %v (%x)", s.ID, err, raw)
		}
		if want := s.KPRef(kp); !ref.Equal(want) || !bytes.Equal(ref, want) {
			x.Fail("reference", "reference of a key package (suite %d) is %x, RFC 9420 says %x (%x)", s.ID, []byte(ref), want, raw)
		}
		x.Seen(fmt.Sprintf("reference/%d/%s", s.ID, lenClass(len(raw))))
	}
}
