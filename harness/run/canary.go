package run

import (
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
)

// RaceCanary races on purpose.
func RaceCanary() {
	var wg sync.WaitGroup
	n := map[int]int{}
	var v int
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			v += i
			_ = n[i]
		}()
	}
	wg.Wait()
	fmt.Println("not detected", v)
}

// detectorWorks runs the canary in a child and requires a report.
func detectorWorks() error {
	if !RaceEnabled {
		return errors.New("not built with the race detector")
	}
	self, err := os.Executable()
	if err != nil {
		return err
	}
	cmd := exec.Command(self, "-racecanary")
	cmd.Env = append(os.Environ(), raceEnv)
	out, err := cmd.CombinedOutput()
	var ee *exec.ExitError
	if !errors.As(err, &ee) || ee.ExitCode() != 66 || !strings.Contains(string(out), "DATA RACE") {
		return fmt.Errorf("the race detector does not report a deliberate race: %v %s", err, out)
	}
	return nil
}

const raceEnv = "GORACE=halt_on_error=1 exitcode=66 history_size=5"
