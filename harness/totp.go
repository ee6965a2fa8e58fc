package main

import (
	"crypto/hmac"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"hash"
	"time"
)

// refTOTP is an independent implementation of RFC 4226/6238.
func refTOTP(secret []byte, algo string, digits int, step uint64) string {
	var h func() hash.Hash
	switch algo {
	case "sha1":
		h = sha1.New
	case "sha256":
		h = sha256.New
	case "sha512":
		h = sha512.New
	default:
		return ""
	}
	m := hmac.New(h, secret)
	var msg [8]byte
	for i := 7; i >= 0; i-- {
		msg[i] = byte(step)
		step >>= 8
	}
	m.Write(msg[:])
	d := m.Sum(nil)
	o := int(d[len(d)-1] % 16)
	var v uint64
	for i := 0; i < 4; i++ {
		v = v<<8 | uint64(d[o+i])
	}
	v &= 1<<31 - 1
	mod := uint64(1)
	for i := 0; i < digits; i++ {
		mod *= 10
	}
	s := fmt.Sprint(v % mod)
	for len(s) < digits {
		s = "0" + s
	}
	return s
}

func stepOf(t time.Time, period int) uint64 {
	u := t.Unix()
	q := u / int64(period)
	if u%int64(period) < 0 {
		q--
	}
	return uint64(q)
}
