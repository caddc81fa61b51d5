//go:build verif

package h

import (
	"context"
	"time"

	"codeberg.org/emersion/soju"
)

// HaveHooks tells whether the harness was built with the verif hooks.
const HaveHooks = true

func init() {
	// Failed connections are retried at once instead of after a minute.
	soju.VerifSetRetryDelays(20*time.Millisecond, 50*time.Millisecond, 10*time.Millisecond)
}

// SetTimeouts changes the bouncer's connect and write timeouts.
func SetTimeouts(connect, write time.Duration) { soju.VerifSetTimeouts(connect, write) }

// DisableInactiveUsers runs the periodic clean-up task.
func DisableInactiveUsers(s *soju.Server) (bool, error) {
	return true, soju.VerifDisableInactiveUsers(context.Background(), s)
}
