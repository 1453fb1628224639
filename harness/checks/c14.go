package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"runtime/debug"
	"sync"

	mls "github.com/emersion/go-mls"
	"verif.local/harness/refmls"
	"verif.local/harness/run"
)

func init() {
	run.Register(&run.Check{
		Prop: "C14", Level: "exploration",
		Rule: "distinct (suite, set of operations running at the same time, number of goroutines, group size) phases without a race report and with the results of sequential use",
		Assumptions: []string{
			"the race detector reports conflicting accesses that are not ordered by synchronisation, in the executions that happen",
		},
		MinEvals: 2000, MinSeen: 60,
		Race: true, Procs: 4, Workers: 4,
		Cases: func(tier string, seed int64) []run.Case {
			var out []run.Case
			out = append(out, casesOf("views", scale(tier, 24, 200), seed, nil)...)
			out = append(out, casesOf("shared", scale(tier, 24, 200), seed, nil)...)
			out = append(out, casesOf("independent", scale(tier, 8, 60), seed, nil)...)
			out = append(out, casesOf("cold", scale(tier, 48, 240), seed, nil)...)
			return out
		},
		Run: func(x *run.Ctx) {
			switch x.Case.Kind {
			case "views":
				c14Views(x)
			case "shared":
				c14Shared(x)
			case "independent":
				c14Independent(x)
			case "cold":
				c14Cold(x)
			}
		},
	})
}

// together runs functions at the same time and fails on the first error.
func together(x *run.Ctx, what string, fs []func() error) {
	var wg sync.WaitGroup
	errs := make([]error, len(fs))
	start := make(chan struct{})
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[i] = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
				}
			}()
			<-start
			errs[i] = f()
		}()
	}
	close(start)
	wg.Wait()
	for i, err := range errs {
		x.Eval(1)
		if err != nil {
			x.Fail("concurrent", "%s, goroutine %d of %d: %v", what, i, len(fs), err)
		}
	}
}

// c14Views: all members of one group work at the same time, sharing encoded
// messages, welcomes and key packages.
func c14Views(x *run.Ctx) {
	r := x.Rng
	cs := mls.CipherSuite(x.P("suite"))
	founder := must2(mls.GenerateKeyPairPackage(cs, mls.NewBasicCredential([]byte("founder"))))
	g := must2(mls.CreateGroup(mls.GroupID(randGID(r)), founder))
	groups := []*mls.Group{g}
	for round := 0; round < 4; round++ {
		k := 1 + r.Intn(3)
		kpps := make([]*mls.KeyPairPackage, k)
		cred := mls.NewBasicCredential([]byte("shared credential"))
		var fs []func() error
		for i := range kpps {
			fs = append(fs, func() (err error) { kpps[i], err = mls.GenerateKeyPairPackage(cs, cred); return })
		}
		together(x, "generating key packages from one credential", fs)
		kps := make([]mls.KeyPackage, k)
		for i := range kpps {
			kps[i] = kpps[i].Public
		}
		// every member prepares with the same list of key packages
		wels := make([]*mls.Welcome, len(groups))
		raws := make([][]byte, len(groups))
		fs = nil
		for i, g := range groups {
			fs = append(fs, func() (err error) { wels[i], raws[i], err = g.CreateWelcome(kps); return })
		}
		for i := range kps {
			fs = append(fs, func() error { _, err := kps[i].GenerateRef(); kps[i].Bytes(); return err })
		}
		together(x, "preparing invitations with the same key packages", fs)
		win := r.Intn(len(groups))
		wel, raw := wels[win], raws[win]
		// everyone processes the same bytes while the newcomers join from
		// the same Welcome
		newcomers := make([]*mls.Group, 2*k)
		fs = nil
		for _, g := range groups {
			fs = append(fs, func() error { _, err := g.UnmarshalAndProcessMessage(raw); return err })
		}
		for i := range newcomers {
			fs = append(fs, func() (err error) { newcomers[i], err = mls.GroupFromWelcome(wel, kpps[i%k]); return })
		}
		fs = append(fs, func() error {
			if n := len(wel.NewMembers()); n != k {
				return fmt.Errorf("%d new members", n)
			}
			_, err := mls.UnmarshalWelcome(wel.Bytes())
			return err
		})
		together(x, "processing a commit and joining from one Welcome", fs)
		copies := newcomers[k:]
		groups = append(groups, newcomers[:k]...)
		// everyone talks
		msgs := make([][]byte, len(groups))
		datas := make([][]byte, len(groups))
		fs = nil
		for i, g := range groups {
			datas[i] = refmls.Bytes(r, r.Intn(60))
			fs = append(fs, func() (err error) { msgs[i], err = g.CreateApplicationMessage(datas[i]); return })
		}
		together(x, "sending", fs)
		fs = nil
		read := func(g *mls.Group, own int) func() error {
			order := r.Perm(len(msgs))
			return func() error {
				for _, j := range order {
					if j == own {
						continue
					}
					out, err := g.UnmarshalAndProcessMessage(msgs[j])
					if err != nil || !bytes.Equal(out, datas[j]) {
						return fmt.Errorf("message of %d: %v", j, err)
					}
				}
				return nil
			}
		}
		for i, g := range groups {
			fs = append(fs, read(g, i))
		}
		for i, g := range copies { // second copies of the newcomers
			fs = append(fs, read(g, len(groups)-k+i%k))
		}
		together(x, "reading the same messages", fs)
		// everything at once: send, prepare, refuse
		fs = nil
		for i, g := range groups {
			switch i % 3 {
			case 0:
				fs = append(fs, func() error { _, err := g.CreateApplicationMessage([]byte("x")); return err })
			case 1:
				fs = append(fs, func() error { _, _, err := g.CreateWelcome(otherKPs(cs)); return err })
			case 2:
				fs = append(fs, func() error {
					if _, err := g.UnmarshalAndProcessMessage(raw); err == nil {
						return fmt.Errorf("commit applied twice")
					}
					return nil
				})
			}
		}
		together(x, "different operations", fs)
		x.Seen("views|%d|%d|%d", cs, len(groups), k)
	}
	// commits with update paths, by a conforming member
	c14Path(x, cs)
}

func otherKPs(cs mls.CipherSuite) []mls.KeyPackage {
	k := must2(mls.GenerateKeyPairPackage(cs, mls.NewBasicCredential([]byte("other"))))
	return []mls.KeyPackage{k.Public}
}

func must2[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

// c14Path lets copies of members process commits with paths, updates and
// removals at the same time.
func c14Path(x *run.Ctx, cs mls.CipherSuite) {
	r := x.Rng
	s := refmls.GetSuite(uint16(cs))
	m0 := refmls.NewMember(s, r, nil)
	g := refmls.Create([]byte("path"), m0, 0, nil, r)
	var list []refmls.ProposalOrRef
	var kpps []*mls.KeyPairPackage
	n := 3 + r.Intn(4)
	for i := 0; i < n; i++ {
		kpp := must2(mls.GenerateKeyPairPackage(cs, mls.NewBasicCredential([]byte{byte(i)})))
		kpps = append(kpps, kpp)
		kp, err := refmls.ParseKeyPackage(kpp.Public.Bytes())
		if err != nil {
			x.Fail("kp-parse", "%v", err)
		}
		list = append(list, val(&refmls.Proposal{Type: refmls.PropAdd, Add: kp}))
	}
	res := g.Commit(&refmls.CommitOpts{List: list, Path: true})
	g = res.Next
	wel := must2(mls.UnmarshalWelcome(res.Welcome.MsgBytes()))
	groups := make([]*mls.Group, 2*n)
	var fs []func() error
	for i := range groups {
		fs = append(fs, func() (err error) { groups[i], err = mls.GroupFromWelcome(wel, kpps[i%n]); return })
	}
	together(x, "joining from one Welcome with path secrets", fs)
	for round := 0; round < 3; round++ {
		res := g.Commit(&refmls.CommitOpts{Path: true, Seal: refmls.SealOpts{Public: r.Intn(2) == 0}, List: []refmls.ProposalOrRef{val(pAdd(refmls.NewMember(s, r, nil)))}})
		g = res.Next
		data := refmls.Bytes(r, 30)
		msg := g.App(data, nil)
		fs = nil
		for _, lg := range groups {
			fs = append(fs, func() error {
				if _, err := lg.UnmarshalAndProcessMessage(res.Raw); err != nil {
					return err
				}
				out, err := lg.UnmarshalAndProcessMessage(msg)
				if err != nil || !bytes.Equal(out, data) {
					return fmt.Errorf("message after the commit: %v", err)
				}
				return nil
			})
		}
		together(x, "processing a commit with a path", fs)
		x.Seen("path|%d|%d|%d", cs, n, round)
	}
}

// c14Shared: one key pair package in many groups at the same time.
func c14Shared(x *run.Ctx) {
	r := x.Rng
	cs := mls.CipherSuite(x.P("suite"))
	owner := must2(mls.GenerateKeyPairPackage(cs, mls.NewBasicCredential([]byte("owner"))))
	guest := must2(mls.GenerateKeyPairPackage(cs, mls.NewBasicCredential([]byte("guest"))))
	third := must2(mls.GenerateKeyPairPackage(cs, mls.NewBasicCredential([]byte("third"))))
	raw := guest.Public.Bytes()
	n := 4 + r.Intn(6)
	gid := mls.GroupID(refmls.Bytes(r, 8))
	list := []mls.KeyPackage{guest.Public, third.Public}
	var fs []func() error
	for i := 0; i < n; i++ {
		seed := r.Int63()
		fs = append(fs, func() error {
			rr := rand.New(rand.NewSource(seed))
			g, err := mls.CreateGroup(gid, owner)
			if err != nil {
				return err
			}
			kps := list
			if rr.Intn(2) == 0 {
				kp, err := mls.UnmarshalKeyPackage(raw)
				if err != nil {
					return err
				}
				kps = []mls.KeyPackage{*kp, third.Public}
			}
			wel, commit, err := g.CreateWelcome(kps)
			if err != nil {
				return err
			}
			if _, err := g.UnmarshalAndProcessMessage(commit); err != nil {
				return err
			}
			g2, err := mls.GroupFromWelcome(wel, guest)
			if err != nil {
				return err
			}
			g3, err := mls.GroupFromWelcome(wel, third)
			if err != nil {
				return err
			}
			all := []*mls.Group{g, g2, g3}
			for k := 0; k < 6; k++ {
				from := rr.Intn(3)
				data := refmls.Bytes(rr, 10)
				m, err := all[from].CreateApplicationMessage(data)
				if err != nil {
					return err
				}
				for j, to := range all {
					if j == from {
						continue
					}
					if out, err := to.UnmarshalAndProcessMessage(m); err != nil || !bytes.Equal(out, data) {
						return fmt.Errorf("member %d: %v", j, err)
					}
				}
			}
			return nil
		})
	}
	for i := 0; i < 3; i++ {
		fs = append(fs, func() error {
			for k := 0; k < 20; k++ {
				ref, err := guest.Public.GenerateRef()
				if err != nil {
					return err
				}
				ref2, err := list[0].GenerateRef()
				if err != nil || !ref.Equal(ref2) {
					return fmt.Errorf("reference differs: %v", err)
				}
				if !bytes.Equal(guest.Public.Bytes(), raw) {
					return fmt.Errorf("encoding differs")
				}
			}
			return nil
		})
	}
	together(x, "groups created from shared key packages", fs)
	x.Seen("shared|%d|%d", cs, n)
}

// c14Independent plays whole groups of all suites at the same time.
func c14Independent(x *run.Ctx) {
	var fs []func() error
	for i := 0; i < 8; i++ {
		seed := x.Rng.Int63()
		cs := mls.CipherSuite(refmls.Supported[i%len(refmls.Supported)])
		fs = append(fs, func() error { return playPure(rand.New(rand.NewSource(seed)), cs) })
	}
	together(x, "independent groups", fs)
	x.Seen("independent|%d", x.P("i"))
}

func playPure(r *rand.Rand, cs mls.CipherSuite) error {
	kpp, err := mls.GenerateKeyPairPackage(cs, mls.NewBasicCredential([]byte("a")))
	if err != nil {
		return err
	}
	if !cs.Supported() || cs.String() == "" {
		return fmt.Errorf("suite not supported")
	}
	g, err := mls.CreateGroup(mls.GroupID(refmls.Bytes(r, 5)), kpp)
	if err != nil {
		return err
	}
	groups := []*mls.Group{g}
	for len(groups) < 6 {
		nk, err := mls.GenerateKeyPairPackage(cs, mls.NewBasicCredential(refmls.Bytes(r, 5)))
		if err != nil {
			return err
		}
		wel, raw, err := groups[r.Intn(len(groups))].CreateWelcome([]mls.KeyPackage{nk.Public})
		if err != nil {
			return err
		}
		for _, g := range groups {
			if _, err := g.UnmarshalAndProcessMessage(raw); err != nil {
				return err
			}
		}
		ng, err := mls.GroupFromWelcome(wel, nk)
		if err != nil {
			return err
		}
		groups = append(groups, ng)
		for i, from := range groups {
			data := refmls.Bytes(r, r.Intn(100))
			m, err := from.CreateApplicationMessage(data)
			if err != nil {
				return err
			}
			for j, to := range groups {
				if i == j {
					continue
				}
				if out, err := to.UnmarshalAndProcessMessage(m); err != nil || !bytes.Equal(out, data) {
					return fmt.Errorf("member %d does not read %d: %v", j, i, err)
				}
			}
		}
	}
	return nil
}
