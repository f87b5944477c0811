CONSTANTS Way = "whole" Objects <- Os Writers <- W Askers <- R Questions <- Qs
SPECIFICATION ISpec
INVARIANT Explained
CHECK_DEADLOCK FALSE
