package checks

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"

	mls "github.com/emersion/go-mls"
	"verif.local/harness/refmls"
	"verif.local/harness/run"
	"verif.local/harness/sim"
)

// wbDecode decodes and re-encodes internal structures of the library. It is
// nil when the monitors were built without access to the internals.
var wbDecode func(kind string, raw []byte) ([]byte, error)

func init() {
	run.Register(&run.Check{
		Prop: "C08", Level: "exploration",
		Rule: "distinct (structure, kind of field, kind of malformation) that were judged, plus (structure, size class) of well-formed encodings that were accepted",
		Assumptions: []string{
			"whether an encoding is well-formed is decided by the reference decoder, which is validated by the official vectors",
			"structures without exported decoder are observed through internal functions when these exist under their present names, and otherwise only inside messages and invitations of a malicious member",
		},
		MinEvals: 30000, MinSeen: 150,
		Cases: func(tier string, seed int64) []run.Case {
			var out []run.Case
			for _, k := range c08Kinds {
				n := scale(tier, 6, 40)
				for i := 0; i < n; i++ {
					if k.blackbox() || wbDecode != nil {
						out = append(out, run.Case{Kind: "codec", Seed: seed, S: k.name, N: map[string]int64{"i": int64(i)}})
					}
				}
			}
			for _, k := range c08Kinds {
				if k.blackbox() || wbDecode != nil {
					for i := 0; i < scale(tier, 3, 20); i++ {
						out = append(out, run.Case{Kind: "lengths", Seed: seed, S: k.name, N: map[string]int64{"i": int64(i)}})
					}
				}
			}
			out = append(out, casesOf("shapes", scale(tier, 8, 60), seed, nil)...)
			out = append(out, casesOf("framed", scale(tier, 12, 80), seed, nil)...)
			out = append(out, casesOf("invited", scale(tier, 12, 80), seed, nil)...)
			return out
		},
		Run: func(x *run.Ctx) {
			switch x.Case.Kind {
			case "codec":
				for i := range c08Kinds {
					if c08Kinds[i].name == x.Case.S {
						c08Codec(x, &c08Kinds[i])
					}
				}
			case "lengths":
				for i := range c08Kinds {
					if c08Kinds[i].name == x.Case.S {
						c08Lengths(x, &c08Kinds[i])
					}
				}
			case "shapes":
				c08Shapes(x)
			case "framed":
				c08Framed(x)
			case "invited":
				c08Invited(x)
			}
		},
	})
}

// structure is something that is encoded.
type structure struct {
	name string
	gen  func(g *gen) func(w *refmls.W)
	get  func(r *refmls.R)
	lib  func(raw []byte) ([]byte, error)
}

func (k *structure) blackbox() bool { return k.lib != nil }

func (k *structure) decode(raw []byte) ([]byte, error) {
	if k.lib != nil {
		return k.lib(raw)
	}
	return wbDecode(k.name, raw)
}

func libKeyPackage(raw []byte) ([]byte, error) {
	kp, err := mls.UnmarshalKeyPackage(raw)
	if err != nil {
		return nil, err
	}
	return kp.Bytes(), nil
}

func libWelcome(raw []byte) ([]byte, error) {
	w, err := mls.UnmarshalWelcome(raw)
	if err != nil {
		return nil, err
	}
	return w.Bytes(), nil
}

func ofWire(wire uint16) func(g *gen) func(w *refmls.W) {
	return func(g *gen) func(w *refmls.W) {
		m := g.message(wire)
		return func(w *refmls.W) { w.Raw(m.Bytes()) }
	}
}

func getWire(wire uint16) func(r *refmls.R) {
	return func(r *refmls.R) {
		m, err := refmls.ParseMessage(r.B)
		if err == nil && wire != 0 && m.Wire != wire {
			err = errors.New("other wire format")
		}
		r.B = nil
		if r.Err == nil {
			r.Err = err
		}
	}
}

// c08Kinds lists all structures; those with a lib function are decoded through
// the exported API.
var c08Kinds = []structure{
	{"exported key package", ofWire(refmls.WireKeyPackage), getWire(refmls.WireKeyPackage), libKeyPackage},
	{"exported welcome", ofWire(refmls.WireWelcome), getWire(refmls.WireWelcome), libWelcome},
	{"message", func(g *gen) func(w *refmls.W) { return ofWire(uint16(1 + g.r.Intn(5)))(g) }, getWire(0), nil},
	{"tree", func(g *gen) func(w *refmls.W) {
		t := g.tree(1 + g.r.Intn(16))
		return func(w *refmls.W) { t.Put(w) }
	}, func(r *refmls.R) { new(refmls.Tree).Get(r) }, nil},
	{"group secrets", func(g *gen) func(w *refmls.W) { return g.secrets().Put }, func(r *refmls.R) { new(refmls.GroupSecrets).Get(r) }, nil},
	{"add", func(g *gen) func(w *refmls.W) { return g.keyPackage().Put }, func(r *refmls.R) { new(refmls.KeyPackage).Get(r) }, nil},
	{"update", func(g *gen) func(w *refmls.W) { return g.leaf().Put }, func(r *refmls.R) { new(refmls.LeafNode).Get(r) }, nil},
	{"remove", bodyOf(refmls.PropRemove), getBody(refmls.PropRemove), nil},
	{"pre-shared key", bodyOf(refmls.PropPSK), getBody(refmls.PropPSK), nil},
	{"reinit", bodyOf(refmls.PropReInit), getBody(refmls.PropReInit), nil},
	{"external init", bodyOf(refmls.PropExtIni), getBody(refmls.PropExtIni), nil},
	{"group context extensions", bodyOf(refmls.PropGCE), getBody(refmls.PropGCE), nil},
	{"proposal", func(g *gen) func(w *refmls.W) { return g.proposal().Put }, func(r *refmls.R) { new(refmls.Proposal).Get(r) }, nil},
	{"commit", func(g *gen) func(w *refmls.W) { return g.commit().Put }, func(r *refmls.R) { new(refmls.Commit).Get(r) }, nil},
	{"update path", func(g *gen) func(w *refmls.W) { return g.updatePath().Put }, func(r *refmls.R) { new(refmls.UpdatePath).Get(r) }, nil},
	{"authenticated content", func(g *gen) func(w *refmls.W) {
		a := &refmls.AuthContent{Wire: refmls.WirePrivate}
		if g.r.Intn(2) == 0 {
			a.Wire = refmls.WirePublic
		}
		a.Content = *g.content(a.Wire == refmls.WirePrivate)
		a.Auth = g.auth(a.Content.Type)
		return func(w *refmls.W) { w.Raw(a.Bytes()) }
	}, func(r *refmls.R) { new(refmls.AuthContent).Get(r) }, nil},
	{"group context", func(g *gen) func(w *refmls.W) { return g.context().Put }, func(r *refmls.R) { new(refmls.GroupContext).Get(r) }, nil},
}

// bodyOf is a proposal without its type.
func bodyOf(t uint16) func(g *gen) func(w *refmls.W) {
	return func(g *gen) func(w *refmls.W) {
		p := g.proposalOf(t)
		return func(w *refmls.W) { p.PutBody(w) }
	}
}

func getBody(t uint16) func(r *refmls.R) {
	return func(r *refmls.R) { (&refmls.Proposal{Type: t}).GetBody(r) }
}

// change is a way to make one primitive of an encoding wrong.
type change struct {
	kind, name string
	do         func(b []byte) []byte
}

func varintOf(b []byte) int {
	r := refmls.R{B: b}
	return r.Varint()
}

// c08Changes lists all changes for a kind of primitive with content b.
func c08Changes(kind string, b []byte) []change {
	var out []change
	add := func(name string, n []byte) {
		if n != nil && !bytes.Equal(n, b) {
			out = append(out, change{kind, name, func([]byte) []byte { return n }})
		}
	}
	cut := func(n int) []byte { return append([]byte{}, b[:max(0, len(b)-n)]...) }
	with := func(t ...byte) []byte { return append(append([]byte{}, b...), t...) }
	switch kind {
	case "u8":
		for _, v := range []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 0x10, 0x40, 0x7f, 0x80, 0x81, 0x82, 0xfe, 0xff} {
			add(fmt.Sprintf("value %d", v), []byte{v})
		}
		add("low bit", []byte{b[0] ^ 1})
		add("missing", []byte{})
		add("doubled", with(b[0]))
	case "u16":
		v := binary.BigEndian.Uint16(b)
		for _, n := range []uint16{0, 1, 2, 3, 4, 5, 6, 7, 8, v + 1, v - 1, v ^ 0x100, v ^ 0x8000, v << 8, 0xffff} {
			add("value", binary.BigEndian.AppendUint16(nil, n))
		}
		add("missing", []byte{})
		add("half", cut(1))
		add("longer", with(0))
	case "u32", "u64":
		add("zero", make([]byte, len(b)))
		add("ones", bytes.Repeat([]byte{0xff}, len(b)))
		add("missing", []byte{})
		add("short", cut(1))
		add("longer", with(0))
	case "len":
		n := varintOf(b)
		if n < 16384 {
			add("non-minimal in two bytes", binary.BigEndian.AppendUint16(nil, 0x4000|uint16(n)))
		}
		add("non-minimal in four bytes", binary.BigEndian.AppendUint32(nil, 0x80000000|uint32(n)))
		add("in eight bytes", binary.BigEndian.AppendUint64(nil, 0xc000000000000000|uint64(n)))
		add("reserved prefix", append([]byte{b[0] | 0xc0}, b[1:]...))
		enc := func(n int) []byte {
			switch {
			case n < 0:
				return nil
			case n < 64:
				return []byte{byte(n)}
			case n < 16384:
				return binary.BigEndian.AppendUint16(nil, 0x4000|uint16(n))
			}
			return binary.BigEndian.AppendUint32(nil, 0x80000000|uint32(n))
		}
		add("one more", enc(n+1))
		add("one less", enc(n-1))
		add("64 more", enc(n+64))
		add("16384 more", enc(n+16384))
		add("zero", enc(0))
		add("huge", []byte{0xbf, 0xff, 0xff, 0xff})
		add("missing", []byte{})
	case "data":
		add("byte appended", with(0))
		add("byte dropped", cut(1))
		add("emptied", []byte{})
	case "list":
		add("byte appended", with(0))
		add("byte of ones appended", with(0xff))
		add("two bytes appended", with(0, 0))
		add("byte dropped", cut(1))
		add("first byte dropped", append([]byte{}, b[min(1, len(b)):]...))
		add("doubled", with(b...))
		add("emptied", []byte{})
	}
	return out
}

// encode runs put with the primitive at site replaced. The number of
// primitives and the kind of the replaced one are returned.
func encode(put func(w *refmls.W), site int, do func(kind string, b []byte) []byte) ([]byte, *refmls.Mutator) {
	m := &refmls.Mutator{Site: site, Do: do}
	refmls.Mut = m
	defer func() { refmls.Mut = nil }()
	var w refmls.W
	put(&w)
	return w.B, m
}

// sites lists the primitives of an encoding.
func sites(put func(w *refmls.W)) (kinds []string, vals [][]byte) {
	_, m := encode(put, -1, nil)
	for i := 0; i < m.N; i++ {
		encode(put, i, func(kind string, b []byte) []byte {
			kinds = append(kinds, kind)
			vals = append(vals, append([]byte{}, b...))
			return b
		})
	}
	return
}

// well judges a well-formed encoding.
func (k *structure) well(x *run.Ctx, raw []byte, how string) {
	r := refmls.R{B: raw}
	k.get(&r)
	if err := r.End(); err != nil {
		panic(fmt.Sprintf("generated %s is not well-formed: %v", k.name, err))
	}
	var out []byte
	var err error
	x.Lib("decoding a "+k.name, func() { out, err = k.decode(raw) })
	x.Eval(1)
	if err != nil {
		x.Fail("refused:"+k.name, "well-formed %s of %d bytes (%s) is refused: %v; %s", k.name, len(raw), how, err, sim.Hex(raw))
	}
	if !bytes.Equal(out, raw) {
		x.Fail("lossy:"+k.name, "well-formed %s of %d bytes (%s) re-encodes differently; %s", k.name, len(raw), how, sim.Hex(raw))
	}
	x.Seen("well|%s|%s", k.name, byteClass(len(raw)))
}

func byteClass(n int) string {
	for _, m := range []int{64, 256, 1024, 16384, 65536, 1 << 20} {
		if n < m {
			return fmt.Sprint("<", m)
		}
	}
	return "large"
}

// judge judges an arbitrary byte string.
func (k *structure) judge(x *run.Ctx, raw []byte, how string) {
	var out []byte
	var err error
	x.Lib("decoding a "+k.name, func() { out, err = k.decode(raw) })
	x.Eval(1)
	if err != nil {
		x.Stat("refused", 1)
		return
	}
	x.Stat("accepted", 1)
	if !bytes.Equal(out, raw) {
		x.Fail("lossy:"+k.name+":"+how, "%s with %s is accepted and re-encodes differently; %s", k.name, how, sim.Hex(raw))
	}
	r := refmls.R{B: raw}
	k.get(&r)
	if rerr := r.End(); rerr != nil && !errors.Is(rerr, refmls.ErrShape) {
		x.Fail("accepted:"+k.name+":"+how, "malformed %s with %s is accepted although it is not one canonical encoding (%v); %s", k.name, how, rerr, sim.Hex(raw))
	}
}

func c08Codec(x *run.Ctx, k *structure) {
	g := &gen{r: x.Rng}
	for i := 0; i < 40; i++ {
		g.big = i%4 == 3
		put := k.gen(g)
		raw, _ := encode(put, -1, nil)
		k.well(x, raw, "generated")
		if i == 0 {
			x.Sample("%s of %d bytes: %s", k.name, len(raw), sim.Hex(raw[:min(len(raw), 40)]))
		}
		if len(raw) > 3000 {
			continue
		}
		kinds, vals := sites(put)
		step := 1 + len(kinds)/60
		for s := x.Rng.Intn(step); s < len(kinds); s += step {
			for _, c := range c08Changes(kinds[s], vals[s]) {
				bad, _ := encode(put, s, func(_ string, b []byte) []byte { return c.do(b) })
				if bytes.Equal(bad, raw) {
					continue
				}
				k.judge(x, bad, fmt.Sprintf("%s field: %s", c.kind, c.name))
				x.Seen("bad|%s|%s|%s", k.name, c.kind, c.name)
			}
		}
		step = 1 + len(raw)/200
		for n := x.Rng.Intn(step); n < len(raw); n += step {
			k.judge(x, raw[:n:n], "its end missing")
		}
		for _, t := range [][]byte{{0}, {1}, {0xff}, {0, 0}, raw} {
			k.judge(x, append(append([]byte{}, raw...), t...), "trailing bytes")
		}
		for j := 0; j < 60 && len(raw) > 0; j++ {
			b := append([]byte{}, raw...)
			b[x.Rng.Intn(len(b))] ^= byte(1 + x.Rng.Intn(255))
			if x.Rng.Intn(2) == 0 {
				b[x.Rng.Intn(len(b))] = byte(x.Rng.Intn(6))
			}
			k.judge(x, b, "altered bytes")
		}
		x.Seen("bad|%s|truncated", k.name)
	}
	// nothing but a few bytes
	for a := 0; a < 256; a++ {
		k.judge(x, []byte{byte(a)}, "one byte")
		k.judge(x, []byte{byte(a), byte(x.Rng.Intn(256))}, "two bytes")
	}
	k.judge(x, nil, "nothing")
}

// c08Shapes covers sizes: single very long fields, very long lists, all tree
// sizes, all lengths around the borders of the length prefixes.
func c08Shapes(x *run.Ctx) {
	r := x.Rng
	g := &gen{r: r}
	by := map[string]*structure{}
	for i := range c08Kinds {
		by[c08Kinds[i].name] = &c08Kinds[i]
	}
	kps := []*structure{by["exported key package"]}
	wels := []*structure{by["exported welcome"]}
	if wbDecode != nil {
		kps, wels = append(kps, by["message"]), append(wels, by["message"])
	}
	lens := []int{0, 1, 63, 64, 65, 255, 256, 16382, 16383, 16384, 16385, 65535, 65536, 1<<20 + r.Intn(9)}
	for _, n := range lens {
		for f := 0; f < 9; f++ {
			kp := g.keyPackage()
			b := refmls.Bytes(r, n)
			switch f {
			case 0:
				kp.InitKey = b
			case 1:
				kp.Sig = b
			case 2:
				kp.Leaf.EncKey = b
			case 3:
				kp.Leaf.SigKey = b
			case 4:
				kp.Leaf.Sig = b
			case 5:
				kp.Leaf.Cred = refmls.Credential{Type: refmls.CredBasic, Identity: b}
			case 6:
				kp.Leaf.Cred = refmls.Credential{Type: refmls.CredX509, Certs: [][]byte{b, {}, b}}
			case 7:
				kp.Exts = []refmls.Extension{{Type: 5, Data: b}}
			case 8:
				kp.Leaf.Exts = []refmls.Extension{{Type: 3, Data: b}, {Type: 4, Data: []byte{}}}
			}
			for _, k := range kps {
				k.well(x, kp.MsgBytes(), fmt.Sprintf("field %d of %d bytes", f, n))
			}
			x.Seen("length|key package|%d|%d", f, n)
		}
		for f := 0; f < 4; f++ {
			w := g.welcome()
			b := refmls.Bytes(r, n)
			w.Secrets = append(w.Secrets, refmls.EncGroupSecrets{Ref: g.bytes(), Ct: g.ct()})
			switch f {
			case 0:
				w.EncGroupInfo = b
			case 1:
				w.Secrets[0].Ref = b
			case 2:
				w.Secrets[0].Ct.Kem = b
			case 3:
				w.Secrets[0].Ct.Ct = b
			}
			for _, k := range wels {
				k.well(x, w.MsgBytes(), fmt.Sprintf("field %d of %d bytes", f, n))
			}
			x.Seen("length|welcome|%d|%d", f, n)
		}
	}
	// the lengths that need more than three bytes
	huge := refmls.Bytes(r, 1<<24+r.Intn(9))
	for _, k := range kps {
		kp := g.keyPackage()
		kp.Exts = []refmls.Extension{{Type: 5, Data: huge}}
		k.well(x, kp.MsgBytes(), "huge extension")
	}
	for _, k := range wels {
		w := g.welcome()
		w.EncGroupInfo = huge
		k.well(x, w.MsgBytes(), "huge group info")
	}
	x.Seen("length|huge")
	for _, n := range []int{0, 1, 2, 31, 32, 33, 8191, 8192, 8193, 70000} {
		for f := 0; f < 5; f++ {
			kp := g.keyPackage()
			l := make([]uint16, n)
			for i := range l {
				l[i] = g.u16()
			}
			*[]*[]uint16{&kp.Leaf.Caps.Versions, &kp.Leaf.Caps.Suites, &kp.Leaf.Caps.Extensions, &kp.Leaf.Caps.Proposals, &kp.Leaf.Caps.Credentials}[f] = l
			for _, k := range kps {
				k.well(x, kp.MsgBytes(), fmt.Sprintf("list %d of %d values", f, n))
			}
			x.Seen("list|key package|%d|%d", f, n)
		}
		w := &refmls.Welcome{Suite: 1, EncGroupInfo: g.bytes()}
		for i := 0; i < n/8; i++ {
			w.Secrets = append(w.Secrets, refmls.EncGroupSecrets{Ref: refmls.Bytes(r, r.Intn(4)), Ct: refmls.HPKECt{Kem: refmls.Bytes(r, r.Intn(4)), Ct: []byte{}}})
		}
		for _, k := range wels {
			k.well(x, w.MsgBytes(), fmt.Sprintf("%d secrets", n/8))
		}
		x.Seen("list|welcome|%d", n)
	}
	if wbDecode == nil {
		return
	}
	// every number of nodes, with and without trailing blank nodes
	for n := 1; n <= 70; n++ {
		t := g.tree(n)
		var w refmls.W
		t.Put(&w)
		by["tree"].well(x, w.B, fmt.Sprintf("%d nodes", n))
		long := append(t.Clone(), nil, nil, nil, nil)
		for k := 1; k <= 4; k++ {
			var w refmls.W
			long.PutRaw(&w, n+k)
			by["tree"].judge(x, w.B, "trailing blank nodes")
		}
		x.Seen("tree|%d", n)
	}
	big := g.tree(3000 + r.Intn(3000))
	var w refmls.W
	big.Put(&w)
	by["tree"].well(x, w.B, "large tree")
}

// c08Lengths gives every byte string of a structure lengths around the borders
// of the length prefixes.
func c08Lengths(x *run.Ctx, k *structure) {
	for round := 0; round < 4; round++ {
		seed := x.Rng.Int63()
		count := &gen{r: rand.New(rand.NewSource(seed))}
		k.gen(count)
		for at := 1; at <= min(count.n, 40); at++ {
			for _, n := range []int{0, 1, 63, 64, 127, 128, 255, 256, 16383, 16384, 16385, 65535, 65536} {
				g := &gen{r: rand.New(rand.NewSource(seed)), at: at, len: n}
				raw, _ := encode(k.gen(g), -1, nil)
				k.well(x, raw, fmt.Sprintf("byte string %d of %d bytes", at, n))
				x.Seen("lengths|%s|%d", k.name, n)
			}
		}
	}
}

// malformed tells whether raw is not the encoding of anything.
func malformed(get func(r *refmls.R), raw []byte) bool {
	r := refmls.R{B: raw}
	get(&r)
	return r.End() != nil
}

// tampered picks malformed encodings of what put writes: changes of single
// primitives, missing and additional bytes.
func tampered(x *run.Ctx, put func(w *refmls.W), get func(r *refmls.R), want int, f func(bad []byte, how string)) {
	raw, _ := encode(put, -1, nil)
	kinds, vals := sites(put)
	var all []func()
	for s := range kinds {
		for _, c := range c08Changes(kinds[s], vals[s]) {
			all = append(all, func() {
				bad, _ := encode(put, s, func(_ string, b []byte) []byte { return c.do(b) })
				if malformed(get, bad) {
					want--
					f(bad, fmt.Sprintf("%s field: %s", c.kind, c.name))
				}
			})
		}
	}
	x.Rng.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	for i := 0; i < len(all) && want > 0; i++ {
		all[i]()
	}
	for n := 1; n <= 3; n++ {
		if b := append(append([]byte{}, raw...), make([]byte, n)...); malformed(get, b) {
			f(b, "trailing zeros")
		}
		if b := append(append([]byte{}, raw...), refmls.Bytes(x.Rng, n)...); malformed(get, b) {
			f(b, "trailing bytes")
		}
		if b := raw[:max(0, len(raw)-n)]; malformed(get, b) {
			f(append([]byte{}, b...), "its end missing")
		}
	}
}

// c08Framed sends re-encoded messages of a member: what a lenient decoder
// would read is exactly what was signed.
func c08Framed(x *run.Ctx) {
	d := newDen(x, nil)
	ls, cs := d.letters()
	for _, l := range append(ls, cs...) {
		m, err := refmls.ParseMessage(l.raw)
		if err != nil {
			x.Fail("emission", "%s of %s does not decode: %v", l.kind, l.from.Name, err)
		}
		x.Eval(1)
		if !bytes.Equal(m.Bytes(), l.raw) {
			x.Fail("emission", "%s of %s is not in canonical form", l.kind, l.from.Name)
		}
		tampered(x, func(w *refmls.W) { w.Raw(m.Bytes()) }, getWire(0), 150, func(bad []byte, how string) {
			d.refuse(d.far, l.kind+" with "+how, bad)
			x.Seen("framed|%s|%s", l.kind, how)
		})
		if m.Private == nil {
			continue
		}
		g := d.evil.Ref
		v, err := g.Reveal(l.raw)
		if err != nil {
			x.Fail("emission", "%s of %s does not decrypt: %v", l.kind, l.from.Name, err)
		}
		fc := &refmls.FramedContent{Type: m.Private.Type}
		auth, err := fc.ReadBody(v.Plain)
		if err != nil {
			x.Fail("emission", "the content of %s of %s does not decode: %v", l.kind, l.from.Name, err)
		}
		pad := make([]byte, len(v.Plain)-len(fc.Body(auth)))
		get := func(r *refmls.R) {
			if !refmls.WellPadded(m.Private.Type, append(append([]byte{}, r.B...), pad...)) {
				r.Err = errors.New("malformed")
			}
			r.B = nil
		}
		tampered(x, func(w *refmls.W) { w.Raw(fc.Body(auth)) }, get, 150, func(bad []byte, how string) {
			c := *v
			c.Plain = append(append([]byte{}, bad...), pad...)
			d.refuse(d.far, "content of "+l.kind+" with "+how, g.Conceal(&c))
			x.Seen("inside|%s|%s", l.kind, how)
		})
		for n := 1; n <= 12; n++ {
			c := *v
			c.SD = func(b []byte) []byte { return append(b, make([]byte, n)...) }
			d.refuse(d.far, l.kind+" with trailing bytes in the sender data", g.Conceal(&c))
			c.SD = func(b []byte) []byte { return append(b, refmls.Bytes(x.Rng, n)...) }
			d.refuse(d.far, l.kind+" with trailing bytes in the sender data", g.Conceal(&c))
			c.SD = func(b []byte) []byte { return b[:len(b)-n] }
			d.refuse(d.far, l.kind+" with truncated sender data", g.Conceal(&c))
			c.SD = nil
			for _, at := range []int{0, n / 2, n - 1} {
				for _, v1 := range []byte{1, 2, 0x80, 0xff} {
					tail := make([]byte, n)
					tail[at] = v1
					c.Plain = append(append([]byte{}, v.Plain...), tail...)
					d.refuse(d.far, l.kind+" with padding that is not zero", g.Conceal(&c))
				}
			}
			tail := make([]byte, n*n*97)
			tail[len(tail)-1-x.Rng.Intn(2)*x.Rng.Intn(len(tail))] = byte(1 + x.Rng.Intn(255))
			c.Plain = append(append([]byte{}, v.Plain...), tail...)
			d.refuse(d.far, l.kind+" with long padding that is not zero", g.Conceal(&c))
			x.Seen("sender data|%s|%d", l.kind, n)
		}
	}
	for _, l := range ls {
		if l.from != d.far {
			d.accept(d.far, l)
		}
	}
	l := cs[x.Rng.Intn(len(cs))]
	d.accept(d.far, l)
}

// c08Invited hides malformed structures in invitations that are otherwise
// right.
func c08Invited(x *run.Ctx) {
	d := newDen(x, nil)
	r := x.Rng
	good := false // the change yields something well-formed
	try := func(what, how string, path bool, mod func(f *forged)) {
		v := d.NewClient(true)
		good = false
		raw := d.forge(v, path, refmls.Hooks{}, mod).MsgBytes()
		if good {
			return
		}
		g, err := tryJoin(x, v, raw)
		x.Eval(1)
		if err == nil || g != nil {
			x.Fail("joined:"+what, "library client joined from an invitation whose %s has %s (suite %d, tree %s)", what, how, d.S.ID, d.Shape())
		}
		x.Seen("invited|%s|%s", what, how)
	}
	// The structures only have the right shape here: each invitation has fresh
	// secrets, so the change is found again by its place.
	for _, path := range []bool{false, true} {
		var gs refmls.GroupSecrets
		var gi *refmls.GroupInfo
		var tree refmls.Tree
		v := d.NewClient(true)
		d.forge(v, path, refmls.Hooks{}, func(f *forged) {
			tree = f.tree.Clone()
			gs = f.gs
			f.giPost = func(g *refmls.GroupInfo) { gi = g }
		})
		pick := func(put func(w *refmls.W), want int, f func(site int, c int, how string)) {
			kinds, vals := sites(put)
			for i := 0; i < want; i++ {
				s := r.Intn(len(kinds))
				cs := c08Changes(kinds[s], vals[s])
				if len(cs) == 0 {
					continue
				}
				c := r.Intn(len(cs))
				f(s, c, fmt.Sprintf("%s field: %s", cs[c].kind, cs[c].name))
			}
		}
		// change number c at a site of what put writes now
		apply := func(put func(w *refmls.W), get func(r *refmls.R), s, c int) []byte {
			b, _ := encode(put, s, func(kind string, b []byte) []byte {
				cs := c08Changes(kind, b)
				if c >= len(cs) {
					return append(b, 0)
				}
				return cs[c].do(b)
			})
			good = !malformed(get, b)
			return b
		}
		pick(gs.Put, 90, func(s, c int, how string) {
			try("group secrets", how, path, func(f *forged) {
				f.gsRaw = func([]byte) []byte { return apply(f.gs.Put, new(refmls.GroupSecrets).Get, s, c) }
			})
		})
		pick(gi.Put, 120, func(s, c int, how string) {
			try("group info", how, path, func(f *forged) {
				var now *refmls.GroupInfo
				f.giPost = func(g *refmls.GroupInfo) { now = g }
				f.giRaw = func([]byte) []byte { return apply(now.Put, new(refmls.GroupInfo).Get, s, c) }
			})
		})
		pick(tree.Put, 200, func(s, c int, how string) {
			try("ratchet tree", how, path, func(f *forged) { f.raw = apply(f.tree.Put, new(refmls.Tree).Get, s, c) })
		})
		for _, t := range [][]byte{{0}, {1}, {0, 0}} {
			add := func(b []byte) []byte { return append(append([]byte{}, b...), t...) }
			try("group secrets", "trailing bytes", path, func(f *forged) { f.gsRaw = add })
			try("group info", "trailing bytes", path, func(f *forged) { f.giRaw = add })
			try("ratchet tree", "trailing bytes", path, func(f *forged) { f.raw = add(f.tree.Bytes()) })
		}
		for k := 1; k <= 4; k++ {
			try("ratchet tree", "trailing blank nodes", path, func(f *forged) {
				end := len(f.tree)
				for f.tree[end-1] == nil {
					end--
				}
				t := append(f.tree.Clone(), nil, nil, nil, nil)
				var w refmls.W
				t.PutRaw(&w, end+k)
				f.raw = w.B
			})
		}
		for n := 1; n < 4; n++ {
			try("group info", "its end missing", path, func(f *forged) { f.giRaw = func(b []byte) []byte { return b[:len(b)-n] } })
			try("group secrets", "its end missing", path, func(f *forged) { f.gsRaw = func(b []byte) []byte { return b[:len(b)-n] } })
		}
		try("group info", "no signature", path, func(f *forged) {
			var now *refmls.GroupInfo
			f.giPost = func(g *refmls.GroupInfo) { now = g }
			f.giRaw = func([]byte) []byte { return now.TBS() }
		})
	}
	c06Honest(d)
}
