//go:build !verif

package h

import (
	"time"

	"codeberg.org/emersion/soju"
)

// HaveHooks tells whether the harness was built with the verif hooks.
const HaveHooks = false

func SetTimeouts(connect, write time.Duration) {}

func DisableInactiveUsers(s *soju.Server) (bool, error) { return false, nil }
