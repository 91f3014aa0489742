prop("D01", "Dates convert between all their forms, and add and subtract, by the calendar",
 "Every instant of years 0 to 9999 has one printable date, date-time stamp (old, new or extended style by era), true date, extended true date, 14-word date array (with weekday and text) and julian day: converting between any two of them gives that instant, to 5 seconds since 1980 and to the hour before and in extended form, with its run number; an integer that is no stamp, true date or printable date is refused. Adding hours to a stamp and the difference of two stamps are those of the calendar in force (Gregorian, 365-day or 360-day years, set by option or environment), across eras and styles, rounded to the hour when asked; a result outside years 0 to 9999 or an invalid argument gives the documented error value. Inputs are unchanged.",
 ["inputs", "histories"], "all days of years 0 to 9999, all hours of 1900 to 2235, all seconds of the boundary days (all 5-second intervals and all 2^32 stamps in the thorough check), and all pairs of boundary dates and increments in three calendars",
 "tests sample a few dates; leap years, eras, styles and calendars combine into cases that no sample covers",
 ["src/base/moduledate.f90", "src/base/datec.f", "src/base/jdatec.f"],
 [("conversions", "src/base/moduledate.f90:naetwed (newdate)"), ("increments and differences", "src/base/moduledate.f90:IDNACTr (incdatr, difdatr)"), ("calendars", "src/base/moduledate.f90:LeapYear_Adjust_int, CcclxDays_Adjust_int, NewDate_Options_int"), ("date arrays", "src/base/moduledate.f90:itdmag2, dmagtp2")],
 src=["checks/dates.cc"], level="model-checked", tech="exhaustive enumeration of dates, stamps and increments on the real code against a reference calendar",
 note="minutes or seconds of 60 or more in a printable date are not tried; 'unset' of options is not tried",
 rule="a state is a distinct day or option history; an evaluation is one instant or integer taken through every conversion, or one increment or difference",
 bound={"quick": "3.65e6 days x 8 times, 2.9e6 hours, 1.2e8 old stamps, boundary ranges of the other integers", "thorough": "all 2^32 stamps, all 1.6e9 true dates"})
