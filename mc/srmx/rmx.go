// Package rmx stands for github.com/SokaDance/rmx in scheduled programs.
package rmx

import "verif/mc/ssync"

type RecursiveMutex = ssync.RecursiveMutex
