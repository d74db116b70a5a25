// Package stub holds recording stand-ins for the facades that the terminal commands are built on.
package stub

import (
	"errors"

	"verif/harness/sym"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

// Log is what happened, in order.
type Log struct{ Calls []string }

func (l *Log) add(s string) { l.Calls = append(l.Calls, s) }

// Count tells how often a call happened.
func (l *Log) Count(s string) int {
	n := 0
	for _, c := range l.Calls {
		if c == s {
			n++
		}
	}
	return n
}

// First is the position of a call or -1.
func (l *Log) First(s string) int {
	for i, c := range l.Calls {
		if c == s {
			return i
		}
	}
	return -1
}

// Config is a configuration in memory.
type Config struct {
	*Log
	Available bool
	Conf      *domain.Config
	Saved     []domain.Config
}

func (c *Config) IsConfigAvailable() bool { return c.Available }
func (c *Config) GetConfig() *domain.Config {
	k := *c.Conf
	return &k
}
func (c *Config) SaveConfig(k *domain.Config) {
	c.add("save")
	c.Saved = append(c.Saved, *k)
	n := *k
	c.Conf = &n
	c.Available = true
}

// Update is a scripted update facade.
type Update struct {
	*Log
	Info      *domain.UpdateInfo
	Err       error
	UpdateErr error
	Stages    []int
	Forced    []bool
	Block     chan int // when set, checks wait for it
}

func (u *Update) CheckForUpdate(force bool) (*domain.UpdateInfo, error) {
	u.add("check")
	u.Forced = append(u.Forced, force)
	if u.Block != nil {
		<-u.Block
	}
	return u.Info, u.Err
}
func (u *Update) Update(stage func(int)) error {
	u.add("update")
	for _, s := range u.Stages {
		stage(s)
	}
	return u.UpdateErr
}

// Vault is a scripted vault.
type Vault struct {
	*Log
	ValidErr, UnlockErr error
	Item                *domain.Item
	Items               []*domain.SimpleItem
	Path, Password      string
	ValidPath           string
	Uid                 string
	Category            *domain.ItemCategory
	Title               string
	Trashed             bool
	Unlocked            bool
	Hook                func(op string)
}

func (v *Vault) add(s string) {
	if v.Hook != nil {
		v.Hook(s)
	}
	v.Log.add(s)
}
func (v *Vault) CountItems(c *domain.ItemCategory, trashed bool) int {
	v.add("items")
	return len(v.Items)
}
func (v *Vault) GetItem(uid string, trashed bool) *domain.Item {
	v.add("item")
	v.Uid, v.Trashed = uid, trashed
	return v.Item
}
func (v *Vault) GetItems(c *domain.ItemCategory, title string, trashed bool) []*domain.SimpleItem {
	v.add("items")
	v.Category, v.Title, v.Trashed = c, title, trashed
	return v.Items
}
func (v *Vault) IsUnlocked() bool { return v.Unlocked }
func (v *Vault) Lock()            { v.add("lock"); v.Unlocked = false }
func (v *Vault) Unlock(vault *domain.Vault, password string) error {
	v.add("unlock")
	v.Path, v.Password = vault.Path, password
	v.Unlocked = v.UnlockErr == nil
	return v.UnlockErr
}
func (v *Vault) Validate(vault *domain.Vault) error {
	v.add("validate")
	v.ValidPath = vault.Path
	return v.ValidErr
}

// All is a complete set.
type All struct {
	Log    *Log
	Config *Config
	Update *Update
	Vault  *Vault
}

// New is a configured, up-to-date program with an accepted vault.
func New() *All {
	l := &Log{}
	return &All{l, &Config{Log: l, Available: true, Conf: domain.NewConfig(1, 1, true, "/default")}, &Update{Log: l, Err: domain.ErrNoUpdate}, &Vault{Log: l}}
}

// Settings are the kinds of configurations Set knows.
const Settings = 6

// Set gives the program one of several configurations (with any timeout and period), and update
// checks one of several outcomes.
func (a *All) Set(k int) {
	c := a.Config.Conf
	c.Timeout, c.UpdatePeriod = sym.Int("timeout", 1, 30), sym.Int("period", 0, 365)
	c.UpdateNotify = k%2 == 1
	c.Vault = []string{"/v", "", "/other"}[k%3]
	switch k {
	case 1, 2:
		a.Update.Info, a.Update.Err = nil, domain.ErrNoUpdate
	case 3, 4:
		a.Update.Info, a.Update.Err = domain.NewUpdateInfo("http://a", "http://c", "CHANGES", "9.9.9", true), nil
	case 5:
		a.Update.Info, a.Update.Err = nil, errors.New("no route to host")
	}
}
