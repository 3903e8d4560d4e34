package pbt

import (
	"encoding/json"
	"os"
	"os/exec"
	"path/filepath"
	"sync/atomic"
)

var alone atomic.Int32

// FailsAlone runs a case of the kind in a process of its own, in which nothing
// was done before. It gives up (and says that the case fails) after 40 times, as
// it's meant for what fails already.
func FailsAlone[C any](prop, kind string, c C) bool {
	if os.Getenv("VERIF_ALONE") == "" && alone.Add(1) > 40 {
		return true
	}
	raw, err := json.Marshal(c)
	Must(err)
	raw, err = json.Marshal(failure{Prop: prop, Kind: kind, Case: raw})
	Must(err)
	dir, err := os.MkdirTemp("", "alone")
	Must(err)
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "case.json")
	Must(os.WriteFile(name, raw, 0o644))
	exe, err := os.Executable()
	Must(err)
	cmd := exec.Command(exe, "-replay", name)
	cmd.Env = append(os.Environ(), "VERIF_ALONE=1")
	return cmd.Run() != nil
}
