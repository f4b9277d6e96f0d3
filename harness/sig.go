package main

import "syscall"

const sigQuit = syscall.SIGQUIT
