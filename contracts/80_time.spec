// durations: whole seconds and a fraction below a second
def dnanos(d) = d.seconds * 1000000000 + d.nanoseconds
func DurationNew(secs, nanos) @P19
  panics_if secs + nanos / 1000000000 > 18446744073709551615
  ensures [exact] dnanos(result) == secs * 1000000000 + nanos
  ensures [canonical] result.nanoseconds < 1000000000
func DurationFromSecs(secs) @P19
  ensures [exact] dnanos(result) == secs * 1000000000
  ensures [canonical] result.nanoseconds < 1000000000
func DurationFromMillis(millis) @P19
  ensures [exact] dnanos(result) == millis * 1000000
  ensures [canonical] result.nanoseconds < 1000000000
func DurationFromMicros(micros) @P19
  ensures [exact] dnanos(result) == micros * 1000
  ensures [canonical] result.nanoseconds < 1000000000
func DurationFromNanos(nanos) @P19
  ensures [exact] dnanos(result) == nanos
  ensures [canonical] result.nanoseconds < 1000000000
func Duration.IsZero(self) @P19
  ensures result <==> dnanos(self) == 0
func Duration.AsSecs(self) @P19
  requires self.nanoseconds < 1000000000
  ensures result == dnanos(self) / 1000000000
func Duration.SubsecMillis(self) @P19
  requires self.nanoseconds < 1000000000
  ensures result == dnanos(self) % 1000000000 / 1000000
func Duration.SubsecMicros(self) @P19
  requires self.nanoseconds < 1000000000
  ensures result == dnanos(self) % 1000000000 / 1000
func Duration.SubsecNanos(self) @P19
  requires self.nanoseconds < 1000000000
  ensures result == dnanos(self) % 1000000000
func Duration.AsMillis(self) @P19
  ensures i128v(result) == dnanos(self) / 1000000
func Duration.AsMicros(self) @P19
  ensures i128v(result) == dnanos(self) / 1000
func Duration.AsNanos(self) @P19
  ensures i128v(result) == dnanos(self)
