package clih

import "testing"

func TestMC(t *testing.T) { Main(t) }
