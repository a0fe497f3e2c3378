package sim

import (
	"os"
	"testing"
)

func TestMain(m *testing.M) {
	mainArgs = os.Args[1:]
	for i, a := range mainArgs {
		if a == "--" {
			mainArgs = mainArgs[i+1:]
			break
		}
	}
	os.Args = []string{os.Args[0], "-test.timeout=0", "-test.paniconexit0=false"}
	if len(mainArgs) > 0 && (mainArgs[0] == "worker" || mainArgs[0] == "one") {
		os.Exit(m.Run())
	}
	os.Exit(coordinate(mainArgs))
}

func TestSim(t *testing.T) {
	theT = t
	workerMain(mainArgs)
}
