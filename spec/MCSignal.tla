---- MODULE MCSignal ----
EXTENDS SignalMonitor
====
