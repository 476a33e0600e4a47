package props

import (
	"bytes"
	"crypto/md5"
	"crypto/rc4"
	"encoding/binary"
	"io"
	"testing"
	"unicode/utf16"

	"github.com/pbnjay/grate/xls/crypto"

	"verif/harness/gen"
)

// refRC4 is the keystream of standard RC4 encryption, of n bytes.
func refRC4(password string, salt []byte, n int) []byte {
	var pw []byte
	for _, u := range utf16.Encode([]rune(password)) {
		pw = append(pw, byte(u), byte(u>>8))
	}
	h0 := md5.Sum(pw)
	h1 := md5.Sum(bytes.Repeat(append(h0[:5:5], salt...), 16))
	ks := make([]byte, n)
	for b := 0; b*1024 < n; b++ {
		k := md5.Sum(binary.LittleEndian.AppendUint32(h1[:5:5], uint32(b)))
		c, err := rc4.NewCipher(k[:])
		if err != nil {
			panic(err)
		}
		block := ks[b*1024 : min(n, b*1024+1024)]
		c.XORKeyStream(block, block)
	}
	return ks
}

func xored(a, b []byte) []byte {
	res := make([]byte, len(a))
	for i := range a {
		res[i] = a[i] ^ b[i]
	}
	return res
}

// TestC30 checks the decryptor by itself.
func TestC30(t *testing.T) {
	prop(t, func(c *Case) {
		salt, verifier := gen.Bytes(c.C, "salt", 16), gen.Bytes(c.C, "verifier", 16)
		password := crypto.DefaultXLSPassword
		other := gen.Bool(c.C, "another password")
		if other {
			password = ""
			for n := c.C.Int("password length", 1, 20); n > 0; n-- {
				password += string(rune(c.C.Int("character", 32, 126)))
			}
		}
		header := func(pw string) []byte {
			hash := md5.Sum(verifier)
			both := xored(append(bytes.Clone(verifier), hash[:]...), refRC4(pw, salt, 32))
			return append(append([]byte{1, 0, 1, 0}, salt...), both...)
		}

		// headers that do not fit the password, or are something else
		h := header(crypto.DefaultXLSPassword)
		bad, why := bytes.Clone(h), ""
		switch c.C.Int("refused", 0, 4) {
		case 0:
			bad[c.C.Int("byte", 4, len(bad)-1)] ^= byte(1 << uint(c.C.Int("bit", 0, 7)))
			why = "a bit of it is wrong"
		case 1:
			bad, why = bad[:c.C.Int("length", 0, len(bad)-1)], "it is cut off"
		case 2:
			bad[2], bad[3] = byte(gen.Pick(c.C, "minor", 2, 0, 3, 255)), 0
			why = "it is another method"
		case 3:
			if password != crypto.DefaultXLSPassword {
				bad, why = header(password), "it is for another password"
			}
		case 4:
			bad, why = append(bad, gen.Bytes(c.C, "more", c.C.Int("extra", 1, 20))...), "it is too long"
		}
		if _, err := crypto.NewBasicRC4(bad); err == nil && why != "" {
			c.Fatalf("the header %x is accepted, although %s", bad, why)
		}

		d, err := crypto.NewBasicRC4(h)
		if err != nil {
			c.Fatalf("the header %x is refused: %v", h, err)
		}
		if other {
			d.SetPassword([]byte(password))
		}
		ops, total := 0, 0
		for round := c.C.Int("rounds", 1, 3); round > 0; round-- {
			size := c.C.Int("size", 0, 5000)
			if gen.Bool(c.C, "whole blocks") {
				size = 1024*c.C.Int("blocks", 0, 5) + c.C.Int("off", -1, 1)
				size = max(size, 0)
			}
			if gen.Rare(c.C, "large", 3) {
				// more than 256 blocks
				size = 270000
			}
			plain := gen.Bytes(c.C, "data", size)
			enc := xored(plain, refRC4(password, salt, size))
			if d.Reset(); len(d.Bytes()) != 0 {
				c.Fatalf("%d bytes after a reset", len(d.Bytes()))
			}
			var got []byte
			read := func(n int) {
				buf := make([]byte, n)
				n, err := d.Read(buf)
				if err != nil && err != io.EOF || n > len(buf) {
					c.Fatalf("read gives %d, %v", n, err)
				}
				got = append(got, buf[:n]...)
				ops++
			}
			for rest := bytes.Clone(enc); len(rest) > 0; {
				n := len(rest)
				switch c.C.Int("write", 0, 3) {
				case 0:
					n = min(n, c.C.Int("few", 0, 70))
				case 1:
					n = min(n, 1024+c.C.Int("about a block", -2, 2))
				case 2:
					n = min(n, c.C.Int("some", 1, 3000))
				}
				if len(enc) > 100000 {
					n = min(len(rest), max(n, 4000))
				}
				if m, err := d.Write(rest[:n]); m != n || err != nil {
					c.Fatalf("write of %d bytes gives %d, %v", n, m, err)
				}
				if at := len(enc) - len(rest); !bytes.Equal(rest[:n], enc[at:at+n]) {
					c.Fatalf("write of %d bytes changes them", n)
				}
				// they may be used for something else
				clear(rest[:n])
				rest = rest[n:]
				ops++
				if gen.Rare(c.C, "read", 15) {
					read(c.C.Int("read length", 1, 3000))
				}
			}
			d.Flush()
			if gen.Bool(c.C, "all at once") {
				got = append(got, d.Bytes()...)
			} else if b, err := io.ReadAll(d); err != nil {
				c.Fatalf("read: %v", err)
			} else {
				got = append(got, b...)
			}
			if !bytes.Equal(got, plain) {
				at := 0
				for at < len(got) && at < len(plain) && got[at] == plain[at] {
					at++
				}
				c.Fatalf("%d bytes encrypted with password %q are decrypted as %d bytes, other than written from byte %d on", len(plain), password, len(got), at)
			}
			total += size
		}
		if total > 1024 && ops > 2 {
			c.Label("several blocks")
			c.NonTrivial(salt, password, total, ops)
			c.Sample("%d bytes with password %q in %d reads and writes; refused: %s", total, password, ops, why)
		}
		if other {
			c.Label("another password")
		}
		if why != "" {
			c.Label("refused: %s", why)
		}
	})
}
