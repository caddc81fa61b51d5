package checks

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"codeberg.org/emersion/soju/database"
	. "verif/harness/h"
)

// snapshotUsers renders everything the database holds about every user, one
// string per user. Times of last interaction are left out.
func snapshotUsers(db database.Database) map[string]string {
	ctx := context.Background()
	users, err := db.ListUsers(ctx)
	Must(err)
	out := map[string]string{}
	for _, u := range users {
		var b strings.Builder
		fmt.Fprintf(&b, "user id=%d name=%q pass=%q nick=%q real=%q admin=%v enabled=%v max=%d\n", u.ID, u.Username, u.Password, u.Nick, u.Realname, u.Admin, u.Enabled, u.MaxNetworks)
		nets, err := db.ListNetworks(ctx, u.ID)
		Must(err)
		sort.Slice(nets, func(i, j int) bool { return nets[i].ID < nets[j].ID })
		for _, n := range nets {
			fmt.Fprintf(&b, "  network %+v\n", n)
			chans, err := db.ListChannels(ctx, n.ID)
			Must(err)
			sort.Slice(chans, func(i, j int) bool { return chans[i].ID < chans[j].ID })
			for _, c := range chans {
				fmt.Fprintf(&b, "    channel %+v\n", c)
			}
		}
		out[u.Username] = b.String()
	}
	return out
}

func snapDiff(a, b map[string]string) string {
	var l []string
	for k, v := range a {
		if b[k] != v {
			l = append(l, fmt.Sprintf("before:\n%safter:\n%s", v, b[k]))
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			l = append(l, fmt.Sprintf("new:\n%s", v))
		}
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}
