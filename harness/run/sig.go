package run

import "syscall"

var quit = syscall.SIGQUIT
