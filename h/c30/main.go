// verif:rewrite help/utils tick,maps
package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"os"
	"strings"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/lib/fsx"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

func key(n, tag int) []byte {
	k := make([]byte, n)
	for i := range k {
		k[i] = byte(i*7 + tag*31 + 1)
	}
	return k
}

func data(n, tag int) []byte {
	switch tag {
	case 1:
		return bytes.Repeat([]byte{16}, n) // looks like padding
	case 2:
		return bytes.Repeat([]byte{1}, n)
	case 3:
		return make([]byte, n)
	case 4:
		d := make([]byte, n)
		for i := range d {
			d[i] = byte(n - i)
		}
		return d
	}
	return []byte(fsx.Content(fmt.Sprint(tag), n))
}

// oracle: CBC with the key's first block as IV and PKCS#7 padding
func seal(d, k []byte) []byte {
	b, err := aes.NewCipher(k)
	if err != nil {
		panic(err)
	}
	p := 16 - len(d)%16
	x := append(append([]byte{}, d...), bytes.Repeat([]byte{byte(p)}, p)...)
	cipher.NewCBCEncrypter(b, k[:16]).CryptBlocks(x, x)
	return x
}

func raw(x, k []byte) []byte { // encrypts whole blocks without padding
	b, _ := aes.NewCipher(k)
	o := append([]byte{}, x...)
	cipher.NewCBCEncrypter(b, k[:16]).CryptBlocks(o, o)
	return o
}

func encrypt(d, k []byte) (o []byte, err error) {
	d0, k0 := string(d[:cap(d)]), string(k)
	vh.Do("AesEncrypt", func() { o, err = utils.AesEncrypt(d, k) })
	vh.Check(string(d[:cap(d)]) == d0, "clobber", "AesEncrypt of %d bytes (capacity %d) changed the caller's memory", len(d), cap(d))
	vh.Check(string(k) == k0, "clobber", "AesEncrypt changed the key")
	return
}

func decrypt(d, k []byte) (o []byte, err error) {
	d0, k0 := string(d[:cap(d)]), string(k)
	vh.Do("AesDecrypt", func() { o, err = utils.AesDecrypt(d, k) })
	vh.Check(string(d[:cap(d)]) == d0, "clobber", "AesDecrypt changed its input")
	vh.Check(string(k) == k0, "clobber", "AesDecrypt changed the key")
	if err == nil && len(k) >= 16 { // what decrypts was made by encrypting the result
		vh.Check(bytes.Equal(seal(o, k), d), "authentic", "AesDecrypt accepted %x, which no encryption produces, as %x", d, o)
	}
	return
}

// every length, key size and spare capacity
func roundtrip(max int) func() {
	return func() {
		ks := []int{16, 24, 32}[rt.Choose(3)]
		tag := rt.Choose(5)
		n := rt.Choose(max + 6)
		if n >= max {
			n = []int{255, 256, 1000, 4096, 65536, 100001}[n-max]
		}
		spare := []int{0, 1, 16, 40}[rt.Choose(4)]
		k := key(ks, tag)
		d := make([]byte, n, n+spare)
		copy(d, data(n, tag))
		for i := range d[n : n+spare] {
			d[:n+spare][n+i] = 0xEE
		}
		o, err := encrypt(d, k)
		vh.Check(err == nil, "encrypt", "AesEncrypt of %d bytes failed: %v", n, err)
		vh.Check(bytes.Equal(o, seal(d, k)), "format", "AesEncrypt of %d bytes is not CBC with PKCS#7 padding", n)
		p, err := decrypt(o, k)
		vh.Check(err == nil && bytes.Equal(p, d), "roundtrip", "decrypting the encryption of %d bytes gives %d bytes, %v", n, len(p), err)
		for i := range p {
			p[i] ^= 0xff // the result is the caller's own
		}
		q, err := decrypt(o, k)
		vh.Check(err == nil && bytes.Equal(q, d), "alias", "a second decryption differs")
		if n > 0 {
			o2, _ := encrypt(d[:n:n], k)
			vh.Check(bytes.Equal(o, o2), "deterministic", "the encryption depends on spare capacity")
		}
	}
}

// inputs that are no encryption: an error, not a panic and not garbage
func malformed() {
	k := key([]int{16, 24, 32}[rt.Choose(3)], 0)
	switch rt.Choose(4) {
	case 0: // every length that is not whole blocks, and nothing
		n := rt.Choose(50)
		o, err := decrypt(data(n, 0), k)
		vh.Check(n > 0 && n%16 == 0 || err != nil, "length", "AesDecrypt of %d bytes returned %x without error", n, o)
	case 1: // every value of the last byte and every length of right padding bytes
		blocks := 1 + rt.Choose(2)
		last := rt.Choose(256)
		same := rt.Choose(17)
		x := data(16*blocks, 0)
		for i := 0; i < same; i++ {
			x[len(x)-1-i] = byte(last)
		}
		x[len(x)-1] = byte(last)
		valid := last >= 1 && last <= 16 && bytes.HasSuffix(x, bytes.Repeat([]byte{byte(last)}, last))
		o, err := decrypt(raw(x, k), k)
		vh.Check((err == nil) == valid, "padding", "AesDecrypt of a text padded with %x returned %x, %v", x[len(x)-16:], o, err)
		if valid {
			vh.Check(bytes.Equal(o, x[:len(x)-last]), "padding", "AesDecrypt of a text padded with %d bytes returned %x", last, o)
		}
	case 2: // every changed byte
		n := []int{0, 5, 15, 16, 17, 31}[rt.Choose(6)]
		c := seal(data(n, 0), k)
		c[rt.Choose(len(c))] ^= []byte{1, 0x10, 0x80, 0xff}[rt.Choose(4)]
		decrypt(c, k)
	case 3: // every cut
		c := seal(data(40, 0), k)
		n := rt.Choose(len(c))
		decrypt(c[:n], k)
	}
}

// every key length
func keys() {
	n := rt.Choose(70)
	how := rt.Choose(2)
	k := key(n, 1)
	ok := n == 16 || n == 24 || n == 32
	var err error
	if how == 0 {
		_, err = encrypt(data(10, 0), k)
	} else if ok {
		_, err = decrypt(seal(data(10, 0), k), k)
	} else {
		_, err = decrypt(data(32, 0), k)
	}
	vh.Check((err == nil) == ok, "key", "a key of %d bytes: %v", n, err)
	if ok && how == 0 { // another key does not decrypt to the same
		k2 := key(n, 1)
		i := rt.Choose(n)
		k2[i] ^= 0x40
		d := data(33, 0)
		o, _ := encrypt(d, k)
		p, err := decrypt(o, k2)
		vh.Check(err != nil || !bytes.Equal(p, d), "wrong-key", "a key that differs in byte %d decrypts", i)
	}
}

func eq(k string, a, b interface{}) { vh.Eq(k, a, b) }

// base64: all byte strings up to 2 bytes, all lengths, all forms agree
func base64s() {
	var s string
	switch rt.Choose(3) {
	case 0:
		s = string([]byte{byte(rt.Choose(256))})
	case 1:
		s = string([]byte{byte(rt.Choose(256)), byte(rt.Choose(64) * 4)})
	case 2:
		s = string(data(rt.Choose(400), rt.Choose(5)))
	}
	want := base64.StdEncoding.EncodeToString([]byte(s))
	var e, e2, d string
	var b, b2 []byte
	vh.Do("Base64", func() {
		e, e2 = utils.Base64Encode(s), utils.Base64EncodeToByte([]byte(s))
		d, b, b2 = utils.Base64DecodeToString(e), utils.Base64Decode(e), utils.Base64DecodeToByte(e)
	})
	vh.Check(e == want && e2 == want, "base64", "the encoding of %q is %q and %q, want %q", s, e, e2, want)
	vh.Check(d == s && string(b) == s && string(b2) == s, "base64", "decoding gives %q, %q, %q, want %q", d, b, b2, s)
	if len(b) > 0 {
		b[0] ^= 0xff
		vh.Check(string(b2) == s && string(utils.Base64Decode(e)) == s, "alias", "decoded results share memory")
	}
}

// decoding of arbitrary text never panics and the forms agree
func base64bad() {
	al := "AQgw=+/-\n !"
	s := ""
	for i := 0; i < 5; i++ {
		k := rt.Choose(len(al) + 1)
		if k == len(al) {
			break
		}
		s += al[k : k+1]
	}
	var d string
	var b, b2 []byte
	vh.Do("Base64Decode", func() { d, b, b2 = utils.Base64DecodeToString(s), utils.Base64Decode(s), utils.Base64DecodeToByte(s) })
	vh.Check(d == string(b) && d == string(b2), "base64", "the forms decode %q to %q, %q, %q", s, d, b, b2)
	if w, err := base64.StdEncoding.DecodeString(s); err == nil {
		eq("base64", d, string(w))
	}
}

// digests of every length, and of every changed byte
func digests() {
	n := rt.Choose(300)
	tag := rt.Choose(5)
	d := data(n, tag)
	want := fmt.Sprintf("%x", md5.Sum(d))
	var l []string
	vh.Do("md5", func() {
		l = []string{utils.Md5(string(d)), utils.Md5Crypt(string(d)), utils.MD5V(d), utils.ComputeFileMD5(bytes.NewReader(d))}
	})
	for i, x := range l {
		vh.Check(x == want, "md5", "digest %d of %d bytes is %s, want %s", i, n, x, want)
	}
	pre := []byte{0xab, byte(n)}
	sum, _ := hex.DecodeString(want)
	eq("md5-prefix", utils.MD5V(d, pre...), hex.EncodeToString(append(append([]byte{}, pre...), sum...)))
}

// everything on long inputs
func large() {
	n := []int{1023, 1024, 4096, 32767, 32768, 65535, 65536, 65537, 1<<20 - 1, 1 << 20, 1<<20 + 1, 5<<20 + 3}[rt.Choose(12)]
	d := data(n, rt.Choose(3))
	s := string(d)
	want := base64.StdEncoding.EncodeToString(d)
	sum := fmt.Sprintf("%x", md5.Sum(d))
	switch rt.Choose(3) {
	case 0:
		vh.DoN("Base64", 1<<30, func() {
			vh.Check(utils.Base64Encode(s) == want && utils.Base64EncodeToByte(d) == want, "base64", "the encoding of %d bytes is wrong", n)
			vh.Check(utils.Base64DecodeToString(want) == s && string(utils.Base64Decode(want)) == s && string(utils.Base64DecodeToByte(want)) == s, "base64", "decoding %d bytes is wrong", n)
		})
	case 1:
		vh.DoN("md5", 1<<30, func() {
			vh.Check(utils.Md5(s) == sum && utils.Md5Crypt(s) == sum && utils.MD5V(d) == sum && utils.ComputeFileMD5(bytes.NewReader(d)) == sum, "md5", "the digest of %d bytes is wrong", n)
		})
	case 2:
		k := key([]int{16, 24, 32}[rt.Choose(3)], 1)
		p := append([]byte{}, d...)
		var o, q []byte
		var err, err2 error
		vh.DoN("AES", 1<<30, func() {
			if o, err = utils.AesEncrypt(p, k); err == nil {
				vh.Check(bytes.Equal(o, seal(d, k)), "aes", "the encryption of %d bytes is not the standard one", n)
				q, err2 = utils.AesDecrypt(o, k)
			}
		})
		vh.Check(err == nil && err2 == nil && bytes.Equal(q, d) && bytes.Equal(p, d), "aes", "%d bytes: %v, %v, equal %v", n, err, err2, bytes.Equal(q, d))
	}
}

func images() {
	n := []int{0, 1, 2, 3, 100, 5000, 65535, 65536, 65537, 1<<20 + 1, 5<<20 + 2}[rt.Choose(11)]
	fsx.Fresh()
	d := data(n, 0)
	fsx.Put("i.png", string(d))
	var s string
	vh.Do("ImageFileToBase64", func() { s = utils.ImageFileToBase64("i.png") })
	rest := strings.TrimPrefix(s, "data:image/png;base64,")
	vh.Check(rest != s && rest == base64.StdEncoding.EncodeToString(d), "image", "ImageFileToBase64 of %d bytes is %.60q", n, s)
	eq("image", utils.ImageFileToBase64("absent.png"), "")
	os.Chmod("i.png", 0)
	eq("image", utils.ImageFileToBase64("i.png"), "")
}

func main() {
	vh.Main("C30", func() []vh.Scenario {
		return []vh.Scenario{
			{Name: "roundtrip", Split: 3, Body: roundtrip(vh.D(100, 600))},
			{Name: "malformed", Split: 3, Body: malformed},
			{Name: "keys", Split: 1, Body: keys},
			{Name: "base64", Split: 2, Body: base64s},
			{Name: "base64-bad", Split: 2, Body: base64bad},
			{Name: "digests", Split: 2, Body: digests},
			{Name: "large", Split: 2, Body: large},
			{Name: "images", Body: images},
		}
	})
}
