package sim

import (
	"bytes"
	"reflect"

	mls "github.com/emersion/go-mls"
	"verif.local/harness/run"
)

// Lent is a buffer lent to the library for one call. Behind its end there is
// room that belongs to the caller.
type Lent struct {
	B    []byte
	x    *run.Ctx
	orig []byte
}

const roomSize = 80

func pattern(i int) byte { return byte(0xc3 + 7*i) }

// Scribbles says whether buffers are overwritten after calls. It is set by
// the check of the property about buffers, others do not depend on it.
var Scribbles bool

// Lend makes a private copy of b with room behind it.
func Lend(x *run.Ctx, b []byte) *Lent {
	if !Scribbles {
		return &Lent{B: b}
	}
	l := &Lent{x: x, orig: append([]byte{}, b...)}
	buf := make([]byte, len(b)+roomSize)
	copy(buf, b)
	for i := 0; i < roomSize; i++ {
		buf[len(b)+i] = pattern(i)
	}
	l.B = buf[:len(b)]
	return l
}

// Back takes a buffer back after the call: it must not have changed, and is
// overwritten.
func (l *Lent) Back(call string) {
	if l.x == nil {
		return
	}
	l.x.Eval(1)
	full := l.B[:cap(l.B)]
	if !bytes.Equal(full[:len(l.orig)], l.orig) {
		l.x.Fail("caller-modified", "%s modified the buffer it was given", call)
	}
	for i := 0; i < roomSize; i++ {
		if full[len(l.orig)+i] != pattern(i) {
			l.x.Fail("caller-modified", "%s wrote behind the end of the buffer it was given", call)
		}
	}
	Scribble(full)
}

// Scribble overwrites a buffer.
func Scribble(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = byte(0x5a ^ i)
	}
}

// Keep copies a result of the library and overwrites the original.
func Keep(b []byte) []byte {
	if !Scribbles {
		return b
	}
	c := append([]byte{}, b...)
	if b == nil {
		c = nil
	}
	Scribble(b)
	return c
}

// LentKPP is a key pair package variable lent for one call.
type LentKPP struct {
	KPP  *mls.KeyPairPackage
	x    *run.Ctx
	pub  []byte
	priv mls.PrivateKeyPackage
}

// LendKPP makes a variable of its own for a key pair package.
func LendKPP(x *run.Ctx, kpp *mls.KeyPairPackage) *LentKPP {
	c := func(b []byte) []byte { return append([]byte{}, b...) }
	v := &mls.KeyPairPackage{Public: kpp.Public}
	v.Private.InitKey = c(kpp.Private.InitKey)
	v.Private.EncryptionKey = c(kpp.Private.EncryptionKey)
	v.Private.SignatureKey = c(kpp.Private.SignatureKey)
	return &LentKPP{KPP: v, x: x, pub: kpp.Public.Bytes(), priv: mls.PrivateKeyPackage{
		InitKey: c(kpp.Private.InitKey), EncryptionKey: c(kpp.Private.EncryptionKey), SignatureKey: c(kpp.Private.SignatureKey)}}
}

// Back checks that the variable has not changed, erases the private keys and
// reuses the variable for something else.
func (l *LentKPP) Back(call string) {
	l.x.Eval(1)
	if !bytes.Equal(l.KPP.Public.Bytes(), l.pub) || !reflect.DeepEqual(l.KPP.Private, l.priv) {
		l.x.Fail("caller-modified", "%s modified the key pair package it was given", call)
	}
	Scribble(l.KPP.Private.InitKey)
	Scribble(l.KPP.Private.EncryptionKey)
	Scribble(l.KPP.Private.SignatureKey)
	*l.KPP = mls.KeyPairPackage{}
}
