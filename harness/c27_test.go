package harness

import (
	"regexp"
	"strconv"
	"testing"
	"time"

	"github.com/xconnio/wampproto-go/auth"
	"pgregory.net/rapid"
)

type timeCase struct {
	Unix   int64  `json:"unix"`
	Nano   int64  `json:"nano"`
	Offset int    `json:"offset"` // minutes east of UTC
	Zone   string `json:"zone"`
	Named  bool   `json:"named,omitempty"` // a location of the time zone database
	Then   int64  `json:"then"`            // another instant in the same location, after that
}

var zones = []string{"UTC", "Asia/Karachi", "Asia/Kathmandu", "America/New_York", "America/St_Johns", "Australia/Lord_Howe",
	"Pacific/Chatham", "Pacific/Marquesas", "Pacific/Kiritimati", "Africa/Monrovia"}

var isoText = regexp.MustCompile(`^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.\d+)?(?:Z|([+-])(\d\d):?(\d\d)?)$`)

// parseISO reads an ISO 8601 date and time with an offset, by its own rules.
func parseISO(s string) (unix int64, offset int, ok bool) {
	m := isoText.FindStringSubmatch(s)
	if m == nil {
		return 0, 0, false
	}
	n := make([]int, 10)
	for i := range m {
		if i == 0 || i == 7 || m[i] == "" {
			continue
		}
		n[i], _ = strconv.Atoi(m[i])
	}
	if n[2] < 1 || n[2] > 12 || n[3] < 1 || n[3] > 31 || n[4] > 23 || n[5] > 59 || n[6] > 59 || n[9] > 59 {
		return 0, 0, false
	}
	offset = n[8]*60 + n[9]
	if m[7] == "-" {
		offset = -offset
	}
	// days from civil date (proleptic Gregorian calendar)
	y, mo := int64(n[1]), int64(n[2])
	if mo <= 2 {
		y--
	}
	era := y / 400
	if y < 0 {
		era = (y - 399) / 400
	}
	yoe := y - era*400
	doy := (153*((mo+9)%12)+2)/5 + int64(n[3]) - 1
	days := era*146097 + yoe*365 + yoe/4 - yoe/100 + doy - 719468
	return days*86400 + int64(n[4]*3600+n[5]*60+n[6]) - int64(offset)*60, offset, true
}

// C27: timestamps denote their instant and offset.
func TestC27_Text(t *testing.T) {
	Check(t, Opt{Checks: 20000, Rule: "instants of the years 1 to 9998 in zones of any whole-minute offset up to 24 h either " +
		"way and of the time zone database, turned into ISO 8601 text and read back by an independent parser and by " +
		"time.Parse, two of one location up to a year apart after each other; non-trivial: the offset is not zero"},
		func(t *rapid.T) timeCase {
			c := timeCase{Unix: rapid.Int64Range(-62103000000, 253339000000).Draw(t, "unix"), Nano: int64(between(t, "nano", 0, 999999999))}
			if chance(t, "recent", 50) {
				c.Unix = int64(between(t, "unix", 0, 1<<32))
			}
			switch between(t, "zone", 0, 5) {
			case 0, 1:
				c.Offset = between(t, "offset", -14*60, 14*60)
			case 2:
				c.Offset = between(t, "offset", -23*60-59, 23*60+59)
			case 3:
				c.Offset = pick(t, "offset", 0, 1, -1, 30, -30, 59, -59, 60, -60, 61, -61, 90, -90, 345, -210, -570, 825)
			case 4:
				c.Offset = 60 * between(t, "offset", -12, 14)
			default:
				c.Named, c.Zone = true, zones[intn(t, "name", len(zones))]
				c.Unix = int64(between(t, "unix", 157766400, 4102444800)) // 1975 to 2100: whole-minute offsets
			}
			if !c.Named && chance(t, "zone name", 60) {
				c.Zone = pick(t, "zone name", "UTC", "GMT", "Z", "EST", "CET", "utc", "+0100", "-07", "Local", "+00", "UTC+2", "Zulu")
			}
			c.Then = c.Unix + pick(t, "sign", int64(1), -1)*int64(between(t, "later", 1, 366*86400))
			return c
		}, runTime)
}

func runTime(c *timeCase, r *Rec) error {
	loc := time.FixedZone(c.Zone, c.Offset*60)
	if c.Named {
		l, err := time.LoadLocation(c.Zone)
		if err != nil {
			r.Label("no time zone database")
			return nil
		}
		loc = l
	} else if c.Offset == 0 && c.Zone == "" {
		loc = time.UTC
	}
	if err := writtenTime(time.Unix(c.Unix, c.Nano).In(loc), r); err != nil {
		return err
	}
	return writtenTime(time.Unix(c.Then, c.Nano).In(loc), r)
}

func writtenTime(at time.Time, r *Rec) error {
	_, sec := at.Zone()
	if sec%60 != 0 {
		return nil
	}
	if sec != 0 {
		r.NonTrivial()
	}
	r.Label("minutes %v sign %v", sec%3600 != 0, sec < 0)
	text := auth.ISO8601(at)
	unix, offset, ok := parseISO(text)
	if !ok {
		return errorf("not ISO 8601: %q for %v", text, at)
	}
	if unix != at.Unix() {
		return errorf("another instant: %q is %d seconds off %v", text, unix-at.Unix(), at)
	}
	if offset*60 != sec {
		return errorf("another offset: %q instead of %d minutes for %v", text, sec/60, at)
	}
	return nil
}

type nowCase struct {
	ID     uint64 `json:"id"`
	Offset int    `json:"offset"`
}

// C27: session creation times.
func TestC27_Created(t *testing.T) {
	Check(t, Opt{Checks: 300, Rule: "sessions created, and the time asked for, with the local time zone set to various offsets: " +
		"the text denotes the moment between the two clock readings around it; every case is non-trivial"},
		func(t *rapid.T) nowCase {
			return nowCase{genID(t), pick(t, "offset", 0, 0, 60, -60, 330, -210, 345, -30, 30, 840, -720, between(t, "any", -840, 840))}
		},
		func(c *nowCase, r *Rec) error {
			r.NonTrivial()
			local := time.Local
			time.Local = time.FixedZone("here", c.Offset*60)
			defer func() { time.Local = local }()
			for i := 0; i < 2; i++ {
				before := time.Now().Unix()
				text := auth.NowISO8601()
				what := "NowISO8601"
				if i == 1 {
					text, what = plainSession(c.ID).CreatedAt(), "session creation time"
				}
				after := time.Now().Unix()
				unix, offset, ok := parseISO(text)
				if !ok {
					return errorf("%s is not ISO 8601: %q", what, text)
				}
				if unix < before || unix > after {
					return errorf("%s is another instant: %q, not %d to %d", what, text, before, after)
				}
				// it may be given in local time or in UTC
				if offset != c.Offset && offset != 0 {
					return errorf("%s has another offset: %q with local offset %d", what, text, c.Offset)
				}
			}
			return nil
		})
}

// C27: the creation time is not the time of asking.
func TestC27_Kept(t *testing.T) {
	Each(t, Opt{Rule: "a session asked for its creation time a while later; non-trivial: always"}, []nowCase{{1, 0}},
		func(c *nowCase, r *Rec) error {
			r.NonTrivial()
			before := time.Now().Unix()
			s := plainSession(c.ID)
			after := time.Now().Unix()
			time.Sleep(2100 * time.Millisecond)
			unix, _, ok := parseISO(s.CreatedAt())
			if !ok || unix < before || unix > after {
				return errorf("session creation time moves: %q, created %d to %d", s.CreatedAt(), before, after)
			}
			return nil
		})
}
