package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"math/big"
	"math/rand"
)

// fido is a software authenticator holding one ES256 credential.
type fido struct {
	priv       *ecdsa.PrivateKey
	id         string
	rpHash     [32]byte
	transports []string
	flags      map[string]bool
	counter    uint32
	rpText     string // the relying party hash as text, if not the usual one
}

func newFido(r *rand.Rand) *fido {
	f := &fido{}
	curve := elliptic.P256()
	d := new(big.Int)
	for d.Sign() == 0 || d.Cmp(curve.Params().N) >= 0 {
		b := make([]byte, 32)
		r.Read(b)
		d.SetBytes(b)
	}
	x, y := curve.ScalarBaseMult(d.Bytes())
	f.priv = &ecdsa.PrivateKey{PublicKey: ecdsa.PublicKey{Curve: curve, X: x, Y: y}, D: d}
	idb := make([]byte, 16+r.Intn(49))
	r.Read(idb)
	f.id = base64.RawURLEncoding.EncodeToString(idb)
	if r.Intn(5) == 0 {
		f.id = randFrom(r, alnum+"-_/+= ключ<&>", 1+r.Intn(40))
	}
	r.Read(f.rpHash[:])
	for _, t := range []string{"usb", "nfc", "ble", "internal"} {
		if r.Intn(2) == 0 {
			f.transports = append(f.transports, t)
		}
	}
	f.flags = map[string]bool{"UP": true}
	for _, k := range []string{"UV", "AT", "ED", "RFU1", "RFU2a"} {
		if r.Intn(2) == 0 {
			f.flags[k] = r.Intn(2) == 0
		}
	}
	if r.Intn(4) > 0 {
		f.counter = r.Uint32()
	}
	return f
}

func coord(i *big.Int) string {
	b := make([]byte, 32)
	i.FillBytes(b)
	return base64.StdEncoding.EncodeToString(b)
}

// register builds the registration document.
func (f *fido) register() map[string]interface{} {
	flags := map[string]interface{}{}
	for k, v := range f.flags {
		flags[k] = v
	}
	var tr []interface{}
	for _, t := range f.transports {
		tr = append(tr, t)
	}
	doc := map[string]interface{}{
		"id": f.id, "type": "public-key", "success": true,
		"attestationObject": map[string]interface{}{
			"fmt":     "packed",
			"attStmt": map[string]interface{}{"alg": -7, "sig": "c2ln", "x5c": []interface{}{"Y2VydA=="}},
			"authData": map[string]interface{}{
				"rpIdHash": hex.EncodeToString(f.rpHash[:]), "flags": flags, "signatureCounter": f.counter,
				"extensions": map[string]interface{}{},
				"credentialData": map[string]interface{}{
					"aaguid": "AAAAAAAAAAAAAAAAAAAAAA==", "credentialId": "Y3JlZA==",
					"publicKey": map[string]interface{}{
						"key_type": 2, "algorithm": -7, "curve_type": 1,
						"curve_x": coord(f.priv.X), "curve_y": coord(f.priv.Y),
					},
				},
			},
		},
		"clientData": map[string]interface{}{"challenge": "abc", "crossOrigin": false, "origin": "https://localhost", "type": "webauthn.create"},
		"device":     map[string]interface{}{"name": "Key", "type": "unknown"},
	}
	if tr != nil {
		doc["transports"] = tr
	}
	if f.rpText != "" {
		doc["attestationObject"].(map[string]interface{})["authData"].(map[string]interface{})["rpIdHash"] = f.rpText
	}
	return doc
}

func b64json(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return base64.StdEncoding.EncodeToString(b)
}

// assertion is the material of a sign-in before encoding.
type assertion struct {
	id         string
	authData   []byte
	clientData []byte
	sig        []byte
}

func (f *fido) authData(flags byte, counter uint32, ext []byte) []byte {
	b := append([]byte(nil), f.rpHash[:]...)
	b = append(b, flags)
	var c [4]byte
	binary.BigEndian.PutUint32(c[:], counter)
	b = append(b, c[:]...)
	return append(b, ext...)
}

func clientDataJSON(typ, challenge, origin string, cross interface{}) []byte {
	m := map[string]interface{}{"type": typ, "challenge": challenge, "origin": origin}
	if cross != nil {
		m["crossOrigin"] = cross
	}
	b, _ := json.Marshal(m)
	return b
}

func (f *fido) sign(authData, clientData []byte) []byte {
	h := sha256.Sum256(clientData)
	m := sha256.Sum256(append(append([]byte(nil), authData...), h[:]...))
	s, err := ecdsa.SignASN1(crand.Reader, f.priv, m[:])
	if err != nil {
		panic(err)
	}
	return s
}

// verifies is the reference signature check.
func (f *fido) verifies(a *assertion) bool {
	h := sha256.Sum256(a.clientData)
	m := sha256.Sum256(append(append([]byte(nil), a.authData...), h[:]...))
	return ecdsa.VerifyASN1(&f.priv.PublicKey, m[:], a.sig)
}

func (f *fido) assert(challenge string, flags byte, counter uint32, ext []byte) *assertion {
	a := &assertion{id: f.id}
	a.authData = f.authData(flags, counter, ext)
	a.clientData = clientDataJSON("webauthn.get", challenge, "https://localhost", false)
	a.sig = f.sign(a.authData, a.clientData)
	return a
}

func (a *assertion) doc() map[string]interface{} {
	return map[string]interface{}{
		"id": a.id, "type": "public-key",
		"auth_data_encoded":   base64.StdEncoding.EncodeToString(a.authData),
		"client_data_encoded": base64.StdEncoding.EncodeToString(a.clientData),
		"signature_encoded":   base64.StdEncoding.EncodeToString(a.sig),
	}
}

func (a *assertion) encode() string { return b64json(a.doc()) }

func genChallenge(r *rand.Rand) string {
	n := 16 + r.Intn(50)
	if r.Intn(12) == 0 {
		n = 100 + r.Intn(pick2(r, 500, 4000))
	}
	s := randFrom(r, alnum+"ABCDEFGHIJKLMNOPQRSTUVWXYZ"+pick(r, "", "-_", "+/"), n)
	return s + pick(r, "", "", "", "=", "==")
}
