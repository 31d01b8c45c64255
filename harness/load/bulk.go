package main

import (
	"bytes"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"time"

	"github.com/amarin/gomorphy/internal/zverif/kit"
	"github.com/amarin/gomorphy/pkg/opencorpora"
)

// bulkCase downloads or unpacks as much as the real dictionary has, packed in one stream or several.
func bulkCase(c *kit.Case) {
	r := c.R
	dir := freshDir(c, "bulk")
	loader := opencorpora.NewLoader(dir)
	packed := filepath.Join(dir, opencorpora.LocalSourceFilename)
	if c.Index%2 == 0 { // a download
		size := r.Range(40, 70) << 20
		content := make([]byte, size)
		_, _ = rand.New(rand.NewSource(int64(r.Intn(1 << 30)))).Read(content) // nolint:gosec
		modified := time.Now().Add(-time.Hour).Truncate(time.Second)
		shared.publish(content, modified)
		get := reply{cut: -1, chunked: r.Bool()}
		shared.set(reply{cut: -1}, get)
		var updated bool
		var err error
		c.NoPanic("downloading", func() { updated, err = loader.DownloadUpdate() })
		c.Op("download of %d bytes (chunked %v)", size, get.chunked)
		if err != nil || !updated {
			c.Fail("download of %d bytes: updated %v, %v", size, updated, err)
		}
		if got := stateOf(packed); got == nil || !bytes.Equal(got.data, content) || !got.mod.Equal(modified) {
			c.Fail("download of %d bytes left %s", size, got)
		}
		c.Max("bytes_downloaded", size)
	} else {
		var text, one []byte
		for len(text) < 8<<20 { // quick to unpack
			text = append(append(text, bytes.Repeat([]byte{byte(r.Intn(256))}, r.Range(1, 20000))...), "\n<lemma>"...)
		}
		write(c, packed, string(text))
		stream, err := exec.Command("python3", "-c", "import bz2,sys\nsys.stdout.buffer.write(bz2.compress(open(sys.argv[1],'rb').read(),9))", packed).Output()
		if err != nil {
			c.Skip("harness: packing: " + err.Error())
		}
		plain, limit := 0, r.Range(440, 560)<<20
		if c.Index >= 2 && r.Chance(50) {
			limit = 0
		}
		h := fnv.New64a()
		for plain <= limit { // streams one after another
			one = append(one, stream...)
			plain += len(text)
			_, _ = h.Write(text)
		}
		write(c, packed, string(one))
		c.NoPanic("unpacking", func() { err = loader.UnpackUpdate() })
		c.Op("unpacking %d bytes of %d", plain, len(one))
		if err != nil {
			c.Fail("unpacking %d bytes: %v", plain, err)
		}
		unpacked := filepath.Join(dir, opencorpora.LocalUnpackedFilename)
		f, err := os.Open(unpacked)
		if err != nil {
			c.Fail("unpacking %d bytes: %v", plain, err)
		}
		got := fnv.New64a()
		n, err := io.Copy(got, f)
		_ = f.Close()
		if err != nil {
			c.Skip("harness: " + err.Error())
		}
		if int(n) != plain || got.Sum64() != h.Sum64() {
			c.Fail("unpacking %d bytes gave %d (other ones: %v)", plain, n, got.Sum64() != h.Sum64())
		}
		c.Max("bytes_unpacked", plain)
	}
	c.Sig(r.Intn(1 << 30))
	c.NonTrivial()
	freshDir(c, "bulk")
}
