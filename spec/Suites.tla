------------------------------- MODULE Suites -------------------------------
(***************************************************************************)
(* Writes the programs of one suite (environment variable SUITE) to PROG.  *)
(***************************************************************************)
EXTENDS GenText
LOCAL INSTANCE IOUtils

Programs(name) ==
  CASE name = "C01" -> C01Suite(0) \o C01Twins(0) \o C01Walks(0)
    [] name = "C02" -> C02Suite(0) \o C02Twins(0) \o C02Walks(0)
    [] name = "C03" -> C03Suite(0) \o C03Twins(0) \o C03Walks(0)
    [] name = "C04" -> C04Suite(0) \o C04Twins(0) \o C04Walks(0)
    [] name = "C05" -> C05Suite(0) \o C05Twins(0) \o C05Walks(0)
    [] name = "C06" -> C06Suite(0) \o C06Twins(0) \o C06Walks(0)
    [] name = "C07" -> C07Suite(0) \o C07Twins(0) \o C07Walks(0)
    [] name = "C08" -> C08Suite(0) \o C08Twins(0) \o C08Walks(0)
    [] name = "C09" -> C09Suite(0) \o C09Twins(0) \o C09Walks(0)
    [] name = "C10" -> C10Suite(0) \o C10Twins(0) \o C10Walks(0)
    [] name = "C11" -> C11Suite(0) \o C11Twins(0) \o C11Walks(0)
    [] name = "C12" -> C12Suite(0) \o C12Twins(0) \o C12Walks(0)
    [] name = "C13" -> C13Suite(0) \o C13Twins(0) \o C13Walks(0)
    [] name = "C14" -> C14Suite(0) \o C14Twins(0) \o C14Walks(0)
    [] name = "C15" -> C15Suite(0) \o C15Twins(0)
    [] name = "C16" -> C16Suite(0)
    [] name = "C17" -> C17Suite(0) \o C17Twins(0)
    [] name = "C18" -> C18Suite(0) \o C18Twins(0)
    [] name = "C19" -> C19Suite(0) \o C19Twins(0)
    [] name = "C20" -> C20Suite(0) \o C20Twins(0)
    [] name = "C21" -> C21Suite(0) \o C21Twins(0)
    [] name = "C22" -> C22Suite(0) \o C22Twins(0)
    [] name = "C23" -> C23Suite(0) \o C23Twins(0)
    [] name = "C24" -> C24Suite(0) \o C24Twins(0)
    [] name = "C25" -> C25Suite(0)
    [] name = "C26" -> C26Suite(0)
    [] name = "C27" -> C27Suite(0) \o C27Twins(0)
    [] name = "C28" -> C28Suite(0)

ASSUME Write(Programs(IOEnv.SUITE))
=============================================================================
