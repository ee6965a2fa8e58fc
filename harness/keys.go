package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/asn1"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
)

// rsaPub is RSA public key material (a random odd modulus suffices: nothing
// here ever uses the private half).
type rsaPub struct {
	n *big.Int
	e int
}

func genRSA(r *rand.Rand, bits int) *rsaPub {
	b := make([]byte, (bits+7)/8)
	r.Read(b)
	extra := uint(len(b)*8 - bits)
	b[0] &= 0xff >> extra
	b[0] |= 0x80 >> extra
	b[len(b)-1] |= 1
	e := []int{65537, 65537, 3, 17, 257}[r.Intn(5)]
	return &rsaPub{n: new(big.Int).SetBytes(b), e: e}
}

func sshString(b []byte) []byte {
	var l [4]byte
	binary.BigEndian.PutUint32(l[:], uint32(len(b)))
	return append(l[:], b...)
}

func sshMpint(i *big.Int) []byte {
	b := i.Bytes()
	if len(b) > 0 && b[0]&0x80 != 0 {
		b = append([]byte{0}, b...)
	}
	return sshString(b)
}

// wire is the SSH wire encoding (RFC 4253), built independently.
func (k *rsaPub) wire() []byte {
	var b bytes.Buffer
	b.Write(sshString([]byte("ssh-rsa")))
	b.Write(sshMpint(big.NewInt(int64(k.e))))
	b.Write(sshMpint(k.n))
	return b.Bytes()
}

func (k *rsaPub) openssh(comment string) string {
	s := "ssh-rsa " + base64.StdEncoding.EncodeToString(k.wire())
	if comment != "" {
		s += " " + comment
	}
	return s
}

// spki is the SubjectPublicKeyInfo DER, built independently.
func (k *rsaPub) spki() []byte {
	inner, err := asn1.Marshal(struct {
		N *big.Int
		E int
	}{k.n, k.e})
	if err != nil {
		panic(err)
	}
	type algID struct {
		A asn1.ObjectIdentifier
		P asn1.RawValue
	}
	out, err := asn1.Marshal(struct {
		A algID
		K asn1.BitString
	}{algID{asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 1, 1}, asn1.RawValue{Tag: 5}}, asn1.BitString{Bytes: inner, BitLength: len(inner) * 8}})
	if err != nil {
		panic(err)
	}
	return out
}

func (k *rsaPub) pem() string {
	return string(pem.EncodeToMemory(&pem.Block{Type: "RSA PUBLIC KEY", Bytes: k.spki()}))
}

func (k *rsaPub) fpSHA256() string {
	h := sha256.Sum256(k.wire())
	return base64.RawStdEncoding.EncodeToString(h[:])
}

func (k *rsaPub) fpMD5() string {
	h := md5.Sum(k.wire())
	var p []string
	for _, x := range h {
		p = append(p, fmt.Sprintf("%02x", x))
	}
	return strings.Join(p, ":")
}

// pgpKey is an armored OpenPGP key with independently computed identifiers.
type pgpKey struct {
	armor string
	fp    string // hex
	keyID string // hex without leading zeros
	algo  byte
	typ   string
}

var pgpPool []*pgpKey

func loadPGP(c *Ctx) []*pgpKey {
	if pgpPool != nil {
		return pgpPool
	}
	files, _ := filepath.Glob(filepath.Join(c.Data, "*.pgp"))
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			c.Harness("%v", err)
		}
		k, err := parsePGP(string(b))
		if err != nil {
			c.Harness("%s: %v", f, err)
		}
		pgpPool = append(pgpPool, k)
	}
	if len(pgpPool) == 0 {
		c.Harness("no PGP keys in %s", c.Data)
	}
	return pgpPool
}

func dearmor(s string) ([]byte, error) {
	lines := strings.Split(strings.TrimSpace(s), "\n")
	if len(lines) < 4 {
		return nil, fmt.Errorf("short armor")
	}
	i := 1
	for i < len(lines) && strings.TrimSpace(lines[i]) != "" {
		i++
	}
	var b strings.Builder
	for _, l := range lines[i:] {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "-----") {
			continue
		}
		if strings.HasPrefix(l, "=") {
			break
		}
		b.WriteString(l)
	}
	return base64.StdEncoding.DecodeString(b.String())
}

// parsePGP reads the first (primary key) packet of an armored v4 key.
func parsePGP(armor string) (*pgpKey, error) {
	raw, err := dearmor(armor)
	if err != nil {
		return nil, err
	}
	tag := raw[0]
	var body []byte
	if tag&0x40 != 0 {
		l := int(raw[1])
		switch {
		case l < 192:
			body = raw[2 : 2+l]
		case l < 224:
			n := (l-192)<<8 + int(raw[2]) + 192
			body = raw[3 : 3+n]
		default:
			n := int(binary.BigEndian.Uint32(raw[2:6]))
			body = raw[6 : 6+n]
		}
	} else {
		switch tag & 3 {
		case 0:
			body = raw[2 : 2+int(raw[1])]
		case 1:
			body = raw[3 : 3+int(binary.BigEndian.Uint16(raw[1:3]))]
		case 2:
			body = raw[5 : 5+int(binary.BigEndian.Uint32(raw[1:5]))]
		}
	}
	if len(body) < 6 || body[0] != 4 {
		return nil, fmt.Errorf("not a v4 key")
	}
	h := sha1.New()
	h.Write([]byte{0x99, byte(len(body) >> 8), byte(len(body))})
	h.Write(body)
	fp := h.Sum(nil)
	k := &pgpKey{armor: armor, fp: hex.EncodeToString(fp), algo: body[5]}
	k.keyID = strings.TrimLeft(hex.EncodeToString(fp[12:]), "0")
	switch k.algo {
	case 1, 2, 3:
		k.typ = "rsa"
	case 17:
		k.typ = "dsa"
	case 19:
		k.typ = "ecdsa"
	}
	return k, nil
}
