---- MODULE MC_CrashPoint ----
EXTENDS CrashPoint
====
