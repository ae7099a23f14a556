package hw

import (
	"os"
	"testing"
	"testing/synctest"

	"verif/harness/nd"
)

func TestReplay(t *testing.T) {
	h := nd.Load(os.Getenv("VERIF_VALUES"))
	f := Harnesses[h]
	if f == nil {
		t.Fatal("unknown harness " + h)
	}
	synctest.Test(t, func(t *testing.T) {
		f()
		nd.Done()
	})
}
