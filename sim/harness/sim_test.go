package harness

import "testing"

func TestMain(m *testing.M) { Main(m) }

func TestSim(t *testing.T) { worker(t) }
