// Package c20: update checks respect the configured period.
package c20

import (
	"context"
	"errors"
	"io"
	"net/url"
	"os"
	"strconv"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/core/facade"
	"github.com/mashmb/1pass/1pass-core/core/service"
	"github.com/mashmb/1pass/1pass-core/port/out"
	"github.com/mashmb/1pass/1pass-up/component/github"

	"verif/harness/stub"
	"verif/harness/sym"
	"verif/harness/vm"
)

// bound: every period 0..365, every second of the time since the last check, or to a time stamp in the future, within 0..400 days (to the second; thorough: 4000 days), time stamps of 10 digits; 15 fixed kinds of missing or invalid stamp files and 16 texts that resemble a time stamp; every outcome of a check; dates around turns of years and months; one and two checks in a row, forced or not
// bound: beyond: clocks before 2001 or after 2286, fractions of a second
// assume: floating point is exact enough at this granularity (modelled as reals)

type timeoutError struct{}

func (timeoutError) Error() string   { return "timed out" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

const outcomes = 12

func reply(kind int) vm.Reply {
	tag := []string{"9.9.9", "1.3.1"}[kind%2]
	switch kind {
	case 0, 1:
		return vm.Reply{Status: 200, Body: []byte("[{\"tag_name\":\"" + tag + "\",\"body\":\"log\",\"assets\":[]}]")}
	case 2:
		return vm.Reply{Err: vm.ErrFault}
	case 3:
		return vm.Reply{Status: 200, Body: []byte("garbage")}
	case 4:
		return vm.Reply{Status: 200, Body: []byte("[]")}
	case 5:
		return vm.Reply{Status: 200, Body: []byte("["), ReadErr: vm.ErrFault}
	case 6:
		return vm.Reply{Err: timeoutError{}}
	case 7:
		return vm.Reply{Err: context.DeadlineExceeded}
	case 8:
		return vm.Reply{Err: io.EOF}
	case 9:
		return vm.Reply{Status: 200, Body: []byte("[{\"tag_name\":\"9.9.9\""), ReadErr: io.ErrUnexpectedEOF}
	case 10:
		return vm.Reply{Status: 403, Body: []byte("{\"message\":\"API rate limit exceeded\"}")}
	}
	return vm.Reply{Status: 200, Body: nil}
}

func done(kind int) bool { return kind == 0 || kind == 1 || kind == 4 }

type cfg struct{ s *stub.All }

func (c cfg) GetConfig() *domain.Config   { return c.s.Config.GetConfig() }
func (c cfg) IsConfigAvailable() bool     { return true }
func (c cfg) SaveConfig(k *domain.Config) {}

type world struct {
	reqs int
	s    *stub.All
	f    facade.UpdateFacade
}

func setup(period int) *world {
	w := &world{s: stub.New()}
	w.s.Config.Conf.UpdatePeriod = period
	w.f = facade.NewDfltUpdateFacade("/home/u/.config/1pass", cfg{w.s}, service.NewDfltUpdateService(github.NewGithubUpdater()))
	return w
}

// check makes one check at a time and tells whether the server was contacted.
func (w *world) check(now int, force bool, kind int) bool {
	vm.SetNow(int64(now))
	n := 0
	vm.SetHTTP(func(url string) vm.Reply {
		n++
		return reply(kind)
	})
	var err error
	var info *domain.UpdateInfo
	o := sym.Catch(func() { info, err = w.f.CheckForUpdate(force) })
	sym.Assert(o.Kind == sym.Returned, "a check neither crashes nor ends the program")
	sym.Assert(n <= 1, "the server is asked once at most")
	sym.Assert((err == nil) == (n == 1 && kind == 0), "exactly a newer release is reported")
	if err == nil {
		sym.Assert(info != nil && info.Newer && info.Version == "9.9.9", "the release is the newer one")
	}
	return n == 1
}

const file = "/home/u/.config/1pass/lastcheck"

// passed gives any time up to a number of days: the whole days and the seconds.
func passed(max int) (int, int) {
	d, h, s := sym.Int("days", 0, max-1), sym.Int("hour", 0, 23), sym.Int("second", 0, 3599)
	return d, (d*24+h)*3600 + s
}

// VerifTwo: two checks, any time apart.
func VerifTwo() {
	period := sym.Int("period", 0, 365)
	max := 400
	if sym.Thorough() {
		max = 4000
	}
	first := sym.Int("first", 1000000000, 5000000000)
	days, pass := passed(max)
	k1, k2 := sym.Choose("outcome", outcomes), 0
	f1 := false
	if k1 == 1 || sym.Thorough() {
		k2 = sym.Choose("outcome2", outcomes)
	} else if k1 == 0 {
		f1 = sym.Bool("force")
	}
	w := setup(period)
	sym.Assert(w.check(first, f1, k1), "the very first check contacts the server")
	b, ok := vm.ReadFile(file)
	sym.Assert(ok == done(k1), "a time stamp is stored exactly after a completed check")
	keep := string(b)
	f2 := sym.Bool("force2")
	asked := w.check(first+pass, f2, k2)
	b2, ok2 := vm.ReadFile(file)
	if f2 {
		sym.Assert(asked, "a forced check contacts the server")
		sym.Cover("forced")
	} else if !done(k1) {
		sym.Assert(asked, "a failed check does not count")
		sym.Cover("after failure")
	} else {
		sym.Assert(asked == (days >= period), "an unforced check contacts the server exactly when the period has passed")
		sym.Cover("after check")
	}
	if asked && done(k2) {
		sym.Assert(ok2, "a time stamp is stored after a completed check")
		third := w.check(first+pass, false, 1)
		sym.Assert(third == (period == 0), "the time stamp is that of the last completed check")
		sym.Cover("renewed")
	} else {
		sym.Assert(ok2 == ok && string(b2) == keep, "a failed or skipped check leaves the time stamp alone")
		sym.Cover("not renewed")
	}
}

// VerifStored: any stored time stamp.
func VerifStored() {
	period := sym.Int("period", 0, 365)
	saved := sym.Int("saved", 1000000000, 5000000000)
	days, pass := passed(400)
	pad := []string{"", "\n", " ", "\r\n", "\t \n"}
	vm.WriteFile(file, []byte(strconv.Itoa(saved)+pad[sym.Choose("pad", len(pad))]))
	w := setup(period)
	sym.Assert(w.check(saved+pass, false, 1) == (days >= period), "the stored time stamp decides")
	sym.Cover("stored")
}

// VerifAhead: a time stamp later than now, as after the clock was set back.
func VerifAhead() {
	period := sym.Int("period", 0, 365)
	now := sym.Int("now", 1000000000, 5000000000)
	days, pass := passed(400)
	vm.WriteFile(file, []byte(strconv.Itoa(now+pass)))
	w := setup(period)
	sym.Assert(w.check(now, false, 1) == (days >= period), "the days between the time stamp and now decide")
	sym.Cover("ahead")
}

// VerifInvalid: no valid time stamp.
func VerifInvalid() {
	texts := []string{"", "\n", "x", "12a", "1.5e9", "0x5f5e100", "1600000000 1600000000", "99999999999999999999", "-", "１６", "\x00", "16_0"}
	k := sym.Choose("kind", len(texts)+3)
	switch {
	case k < len(texts):
		vm.WriteFile(file, []byte(texts[k]))
	case k == len(texts):
		vm.Mkdir("/home/u/.config/1pass")
	case k == len(texts)+1:
		vm.Mkdir(file)
	}
	period := sym.Int("period", 0, 365)
	w := setup(period)
	now, kind := sym.Int("now", 1000000000, 5000000000), sym.Choose("outcome", outcomes)
	sym.Assert(w.check(now, false, kind), "without a valid time stamp the server is contacted")
	if done(kind) && k != len(texts)+1 {
		sym.Assert(w.check(now, false, 1) == (period == 0), "afterwards the time stamp of that check counts")
		sym.Cover("renewed after invalid")
	}
	sym.Cover("invalid")
}

// VerifForeign: texts that resemble a recent time stamp are none.
func VerifForeign() {
	texts := []string{"0x6553f100", "17_000_000_00", "1.7e9", "1700000000.5", "1700000000s", "1700000000 UTC", "#1700000000", "2023-11-14", "1700000000,", "\"1700000000\"", "1700000000 1700000000", "1,700,000,000", "1700000000\n1700000000\n", "0b1100101010100111111000100000000", "0o14524770400", "\ufeff1700000000"}
	vm.WriteFile(file, []byte(texts[sym.Choose("text", len(texts))]))
	w := setup([]int{1, 7, 365}[sym.Choose("period", 3)])
	now := 1700000000 + []int{0, 1, 3600}[sym.Choose("passed", 3)]
	sym.Assert(w.check(now, false, []int{0, 1, 2}[sym.Choose("outcome", 3)]), "without a valid time stamp the server is contacted")
	sym.Cover("foreign")
}

// VerifRewrite: whatever was stored before, after a check only its time counts.
func VerifRewrite() {
	olds := []string{"1600000000 1600000000", "99999999999999999999", "1500000000\n# note", "0000001500000000", "1500000000", "1500000000\r\n", "something else altogether", "9999999999999", ""}
	vm.WriteFile(file, []byte(olds[sym.Choose("old", len(olds))]))
	w := setup(5)
	kind := []int{0, 1, 4}[sym.Choose("outcome", 3)]
	sym.Assert(w.check(1700000000, true, kind), "a forced check contacts the server")
	days := sym.Choose("days", 7)
	sym.Assert(w.check(1700000000+days*86400, false, 1) == (days >= 5), "afterwards the time stamp of that check counts")
	sym.Cover("rewritten")
}

// VerifDates: dates around the turns of years, months and daylight saving, and large distances.
func VerifDates() {
	starts := []int{1704067199, 1709164800, 1735689599, 1711846800, 1698541200, 978307200 + 86400*59, 2147483647, 4102444800}
	gaps := []int{0, 1, 6, 7, 27, 28, 29, 30, 31, 59, 89, 90, 364, 365, 366, 367, 729, 730, 731, 1460, 1461, 3652}
	start, gap := starts[sym.Choose("start", len(starts))], gaps[sym.Choose("gap", len(gaps))]
	pass := gap*86400 + []int{0, 1, 43200, 86399}[sym.Choose("second", 4)]
	vm.WriteFile(file, []byte(strconv.Itoa(start)))
	period := []int{0, 1, 2, 7, 14, 28, 30, 31, 90, 180, 364, 365}[sym.Choose("period", 12)]
	w := setup(period)
	sym.Assert(w.check(start+pass, false, 1) == (gap >= period), "the stored time stamp decides")
	sym.Cover("dates")
}

type updater struct {
	out.Updater
	should         bool
	info           *domain.UpdateInfo
	err            error
	period, asked  int
	timeout        int64
	dir, stampDir  string
	checks, stamps int
	stampBefore    bool
}

func (u *updater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, error) {
	u.checks++
	u.timeout = timeout
	u.stampBefore = u.stamps > 0
	return u.info, u.err
}
func (u *updater) CheckTimestamp(dir string) { u.stamps++; u.stampDir = dir }
func (u *updater) ShouldCheck(period int, dir string) bool {
	u.asked++
	u.period, u.dir = period, dir
	return u.should
}

// VerifService: the decision belongs to the period test, with the configured values.
func VerifService() {
	s := stub.New()
	s.Config.Conf.UpdatePeriod = sym.Int("period", 0, 365)
	s.Config.Conf.Timeout = sym.Int("timeout", 1, 30)
	u := &updater{}
	u.should = sym.Bool("should")
	k := sym.Choose("outcome", 4)
	errs := []error{errors.New("failed"), timeoutError{}, io.EOF, context.DeadlineExceeded, context.Canceled, os.ErrNotExist, os.ErrDeadlineExceeded, domain.ErrUnknownDataType, &url.Error{Op: "Get", URL: "u", Err: timeoutError{}}}
	switch k {
	case 0:
		u.info = domain.NewUpdateInfo("a", "c", "l", "v", true)
	case 1:
		u.info = domain.NewUpdateInfo("a", "c", "l", "v", false)
	case 3:
		u.err = errs[sym.Choose("error", len(errs))]
	}
	force := sym.Bool("force")
	info, err := facade.NewDfltUpdateFacade("/dir", cfg{s}, service.NewDfltUpdateService(u)).CheckForUpdate(force)
	sym.Assert((u.checks == 1) == (force || u.should) && u.checks <= 1, "the server is contacted exactly when forced or due")
	if !force {
		sym.Assert(u.asked >= 1 && u.dir == "/dir", "the stamp of the configuration directory is used")
		sym.Assert(u.period == s.Config.Conf.UpdatePeriod, "the configured period is used")
	}
	if u.checks == 0 {
		sym.Assert(err != nil && info == nil && u.stamps == 0, "a skipped check finds nothing and stores no time stamp")
		sym.Cover("skipped")
		return
	}
	sym.Assert(u.timeout == int64(s.Config.Conf.Timeout), "the configured timeout is used")
	sym.Assert((u.stamps > 0) == (k != 3) && !u.stampBefore, "the time stamp is renewed after completed checks only")
	if u.stamps > 0 {
		sym.Assert(u.stampDir == "/dir", "the stamp is stored in the configuration directory")
	}
	sym.Assert((err == nil) == (k == 0), "exactly a newer release is reported")
	sym.Cover("checked")
}
