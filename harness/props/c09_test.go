package props

import (
	"fmt"
	"path/filepath"
	"reflect"
	"runtime"
	"sync"
	"testing"

	"github.com/pbnjay/grate"

	"verif/harness/gen"
)

// processFile reads a whole file through the common open call.
func processFile(f *aFile) (w *whole, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	src, err := grate.Open(f.fn)
	if err != nil {
		return nil, err
	}
	defer src.Close()
	if isSheet(f) {
		return readWhole(src)
	}
	w = &whole{Rows: map[string][][]RCell{}}
	if w.Names, err = src.List(); err != nil {
		return nil, err
	}
	for _, n := range w.Names {
		col, err := src.Get(n)
		if err != nil {
			return nil, err
		}
		for col.Next() {
			row, err := readStrings(col)
			if err != nil {
				return nil, err
			}
			w.Rows[n] = append(w.Rows[n], row)
		}
	}
	return w, nil
}

func TestC09(t *testing.T) {
	prop(t, func(c *Case) {
		var files []*aFile
		n := c.C.Int("files", 2, 6)
		for i := 0; i < n; i++ {
			files = append(files, makeFile(c, i))
		}
		// whatever is set up on first use is, or is not, set up before
		later := gen.Bool(c.C, "read alone later")
		if later {
			c.Label("first use is concurrent")
		} else {
			for _, f := range files {
				f.read(c)
			}
		}
		results := make([][]*whole, n)
		procs := c.C.Int("procs", 2, 4)
		rounds := c.C.Int("rounds", 1, 4)
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))
		errs := make([]error, n)
		start := make(chan bool)
		var wg sync.WaitGroup
		for i := range files {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				for k := 0; k < rounds; k++ {
					w, err := processFile(files[i])
					if err != nil {
						errs[i] = fmt.Errorf("%v: %v", files[i], err)
						return
					}
					results[i] = append(results[i], w)
				}
			}(i)
		}
		close(start)
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				c.Fatalf("next to %d others: %v", n-1, err)
			}
		}
		kinds := map[string]int{}
		for i, f := range files {
			if later {
				f.read(c)
			}
			for _, w := range results[i] {
				if fmt.Sprint(w.Names, w.Hidden) != fmt.Sprint(f.base.Names, f.base.Hidden) || !reflect.DeepEqual(w.Rows, f.base.Rows) {
					c.Fatalf("%v gives, next to %d others,\n%v instead of\n%v", f, n-1, w, f.base)
				}
			}
		}
		for _, f := range files {
			kinds[filepath.Ext(f.fn)]++
		}
		for k := range kinds {
			c.Label("%s", k)
		}
		c.NonTrivial(kinds, files[0].desc, files[1].desc)
		c.Sample("%d goroutines on %d processors, %d rounds, %v", n, procs, rounds, kinds)
	})
}
