package harness

import (
	"os/exec"
	"syscall"
)

func procAttr() *syscall.SysProcAttr { return &syscall.SysProcAttr{Setpgid: true} }

func killGroup(c *exec.Cmd) { syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
