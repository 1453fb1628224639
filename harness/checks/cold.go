package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"
	"sync"

	mls "github.com/emersion/go-mls"
	"verif.local/harness/refmls"
	"verif.local/harness/run"
)

// A cold start: a process whose first calls of the library are concurrent, so
// that nothing the library initialises on first use is ready.

type coldMember struct{ KP, Init, Enc, Sig []byte }

type coldGroup struct {
	Suite                uint16
	Welcome, Commit, Msg []byte
	Data                 []byte
	Members              []coldMember
}

type coldPlan struct {
	Seed   int64
	Mode   int
	Groups []coldGroup
}

const coldModes = 6

// coldPrepare makes a group with the reference implementation only.
func coldPrepare(r *rand.Rand, suite uint16) coldGroup {
	s := refmls.GetSuite(suite)
	g := refmls.Create(refmls.Bytes(r, 6), refmls.NewMember(s, r, nil), 0, nil, r)
	out := coldGroup{Suite: suite}
	var list []refmls.ProposalOrRef
	for i := 0; i < 4; i++ {
		m := refmls.NewMember(s, r, nil)
		out.Members = append(out.Members, coldMember{m.KP.MsgBytes(), m.InitPriv, m.EncPriv, m.SigPriv})
		list = append(list, val(pAdd(m)))
	}
	res := g.Commit(&refmls.CommitOpts{List: list, Path: true})
	out.Welcome = res.Welcome.MsgBytes()
	res = res.Next.Commit(&refmls.CommitOpts{Path: true, Seal: refmls.SealOpts{Public: r.Intn(2) == 0}})
	out.Commit = res.Raw
	out.Data = refmls.Bytes(r, 20)
	out.Msg = res.Next.App(out.Data, nil)
	return out
}

// c14Cold starts a process and requires that it reports nothing.
func c14Cold(x *run.Ctx) {
	plan := coldPlan{Seed: x.Rng.Int63(), Mode: int(x.P("i")/4) % coldModes}
	if x.Rng.Intn(2) == 0 {
		for _, id := range refmls.Supported {
			plan.Groups = append(plan.Groups, coldPrepare(x.Rng, id))
		}
	} else {
		plan.Groups = append(plan.Groups, coldPrepare(x.Rng, uint16(x.P("suite"))))
	}
	b, err := json.Marshal(plan)
	if err != nil {
		panic(err)
	}
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(self, "-cold")
	cmd.Stdin = bytes.NewReader(b)
	out, err := cmd.CombinedOutput()
	x.Eval(1)
	if strings.Contains(string(out), "DATA RACE") {
		x.Fail("race", "data race reported in a process whose first calls are concurrent (mode %d): %s", plan.Mode, out)
	}
	if err != nil || !strings.Contains(string(out), "cold start done") {
		x.Fail("concurrent", "a process whose first calls are concurrent failed (mode %d): %v %s", plan.Mode, err, out)
	}
	x.Seen("cold|%d|%d|%d", x.P("suite"), plan.Mode, len(plan.Groups))
}

// Cold is the main function of such a process.
func Cold() {
	var plan coldPlan
	if err := json.NewDecoder(os.Stdin).Decode(&plan); err != nil {
		panic(err)
	}
	if err := cold(&plan); err != nil {
		fmt.Println("FAILED:", err)
		os.Exit(1)
	}
	fmt.Println("cold start done")
}

// stage runs f n times at the same time.
func stage(n int, what string, f func(i int) error) error {
	errs := make([]error, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range errs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[i] = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
				}
			}()
			<-start
			errs[i] = f(i)
		}()
	}
	close(start)
	wg.Wait()
	for i, err := range errs {
		if err != nil {
			return fmt.Errorf("%s, goroutine %d of %d: %v", what, i, n, err)
		}
	}
	return nil
}

func cold(plan *coldPlan) error {
	ng := len(plan.Groups)
	n := 4 * ng
	of := func(i int) (*coldGroup, *coldMember) {
		g := &plan.Groups[i%ng]
		return g, &g.Members[i/ng%len(g.Members)]
	}
	suite := func(i int) mls.CipherSuite { return mls.CipherSuite(plan.Groups[i%ng].Suite) }
	kpps := make([]*mls.KeyPairPackage, n)
	load := func(i int) error {
		_, m := of(i)
		kp, err := mls.UnmarshalKeyPackage(m.KP)
		if err != nil {
			return err
		}
		kpps[i] = &mls.KeyPairPackage{Public: *kp, Private: mls.PrivateKeyPackage{InitKey: m.Init, EncryptionKey: m.Enc, SignatureKey: m.Sig}}
		return nil
	}
	generate := func(i int) (err error) {
		kpps[i], err = mls.GenerateKeyPairPackage(suite(i), mls.NewBasicCredential([]byte{byte(i)}))
		return err
	}
	groups := make([]*mls.Group, n)
	create := func(i int) (err error) {
		groups[i], err = mls.CreateGroup(mls.GroupID{byte(i)}, kpps[i])
		return err
	}
	wels := make([]*mls.Welcome, n)
	raws := make([][]byte, n)
	invite := func(i int) (err error) {
		wels[i], raws[i], err = groups[i].CreateWelcome([]mls.KeyPackage{kpps[(i+ng)%n].Public})
		return err
	}
	merge := func(i int) error { _, err := groups[i].UnmarshalAndProcessMessage(raws[i]); return err }
	guests := make([]*mls.Group, n)
	follow := func(i int) (err error) {
		guests[i], err = mls.GroupFromWelcome(wels[i], kpps[(i+ng)%n])
		return err
	}
	msgs := make([][]byte, n)
	say := func(i int) (err error) {
		msgs[i], err = groups[i].CreateApplicationMessage([]byte{byte(i)})
		return err
	}
	hear := func(i int) error {
		out, err := guests[i].UnmarshalAndProcessMessage(msgs[i])
		if err == nil && !bytes.Equal(out, []byte{byte(i)}) {
			err = fmt.Errorf("other data")
		}
		return err
	}
	joined := make([]*mls.Group, n)
	join := func(i int) error {
		g, _ := of(i)
		wel, err := mls.UnmarshalWelcome(g.Welcome)
		if err != nil {
			return err
		}
		joined[i], err = mls.GroupFromWelcome(wel, kpps[i])
		return err
	}
	commit := func(i int) error {
		g, _ := of(i)
		_, err := joined[i].UnmarshalAndProcessMessage(g.Commit)
		return err
	}
	read := func(i int) error {
		g, _ := of(i)
		out, err := joined[i].UnmarshalAndProcessMessage(g.Msg)
		if err == nil && !bytes.Equal(out, g.Data) {
			err = fmt.Errorf("other data")
		}
		return err
	}
	ref := func(i int) error {
		if !suite(i).Supported() || suite(i).String() == "" {
			return fmt.Errorf("suite not supported")
		}
		_, err := kpps[i].Public.GenerateRef()
		return err
	}
	chain := func(fs ...func(int) error) func(int) error {
		return func(i int) error {
			for _, f := range fs {
				if err := f(i); err != nil {
					return err
				}
			}
			return nil
		}
	}
	type step struct {
		what string
		f    func(int) error
	}
	loadS, refS := step{"decoding key packages", load}, step{"computing references", ref}
	genS, createS := step{"generating key packages", generate}, step{"creating groups", create}
	inviteS, mergeS, followS := step{"inviting", invite}, step{"applying own commits", merge}, step{"joining", follow}
	sayS, hearS := step{"sending", say}, step{"receiving", hear}
	joinS, commitS, readS := step{"joining with path secrets", join}, step{"processing commits with a path", commit}, step{"reading", read}
	var steps []step
	switch plan.Mode {
	case 0: // everything through the library, stage by stage
		steps = []step{genS, refS, createS, inviteS, mergeS, followS, sayS, hearS}
	case 1: // members of an existing group
		steps = []step{loadS, joinS, commitS, readS}
	case 2: // whole lives
		steps = []step{{"whole lives", chain(load, join, commit, read)}}
	case 3: // key packages made elsewhere
		steps = []step{loadS, createS, inviteS, mergeS, followS, sayS, hearS}
	case 4: // different operations
		steps = []step{loadS, {"different operations", func(i int) error {
			switch i / ng % 4 {
			case 0:
				return chain(create, invite, merge, say)(i)
			case 1:
				return chain(join, commit, read)(i)
			case 2:
				return chain(generate, ref, create)(i)
			}
			return chain(ref, join, commit)(i)
		}}}
	case 5:
		r := make([]int64, n)
		rr := rand.New(rand.NewSource(plan.Seed))
		for i := range r {
			r[i] = rr.Int63()
		}
		steps = []step{{"whole groups", func(i int) error { return playPure(rand.New(rand.NewSource(r[i])), suite(i)) }}}
	}
	for _, s := range steps {
		if err := stage(n, s.what, s.f); err != nil {
			return err
		}
	}
	return nil
}
