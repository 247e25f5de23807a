package bashsym

import (
	"os"
	"testing"
)

func writeScript(t *testing.T, dir, s string) {
	if err := os.WriteFile(dir+"/script", []byte(s), 0644); err != nil {
		t.Fatal(err)
	}
}
