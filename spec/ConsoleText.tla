---------------------------- MODULE ConsoleText ----------------------------
(* The fixed texts of the console, as byte sequences. *)
\* Help
T_Help == <<72, 101, 108, 112>>
\* Help: 
T_HelpOf == <<72, 101, 108, 112, 58, 32>>
\* History
T_Hist == <<72, 105, 115, 116, 111, 114, 121>>
\* ===< 
T_HdrA == <<61, 61, 61, 60, 32>>
\*  >=================================================\n
T_HdrB == <<32, 62, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 61, 10>>
\* \nUsage: \n
T_Usage == <<10, 85, 115, 97, 103, 101, 58, 32, 10>>
\* Command '
T_CmdA == <<67, 111, 109, 109, 97, 110, 100, 32, 39>>
\* ' requires 
T_Requires == <<39, 32, 114, 101, 113, 117, 105, 114, 101, 115, 32>>
\*  arguments. Only 
T_Only == <<32, 97, 114, 103, 117, 109, 101, 110, 116, 115, 46, 32, 79, 110, 108, 121, 32>>
\*  provided.\n
T_Provided == <<32, 112, 114, 111, 118, 105, 100, 101, 100, 46, 10>>
\* ' not supported.\n
T_NotSup == <<39, 32, 110, 111, 116, 32, 115, 117, 112, 112, 111, 114, 116, 101, 100, 46, 10>>
\* echo
W_echo == <<101, 99, 104, 111>>
\* history
W_history == <<104, 105, 115, 116, 111, 114, 121>>
\* clear
W_clear == <<99, 108, 101, 97, 114>>
\* depth
W_depth == <<100, 101, 112, 116, 104>>
\* logerrors
W_logerrors == <<108, 111, 103, 101, 114, 114, 111, 114, 115>>
\* help-on-fail
W_hof == <<104, 101, 108, 112, 45, 111, 110, 45, 102, 97, 105, 108>>
\* prompt
W_prompt == <<112, 114, 111, 109, 112, 116>>
\* force
W_force == <<102, 111, 114, 99, 101>>
\* rxterm
W_rxterm == <<114, 120, 116, 101, 114, 109>>
\* Console RX echo 
T_Echo == <<67, 111, 110, 115, 111, 108, 101, 32, 82, 88, 32, 101, 99, 104, 111, 32>>
\* en
T_En == <<101, 110>>
\* dis
T_Dis == <<100, 105, 115>>
\* abled.\n
T_Abled == <<97, 98, 108, 101, 100, 46, 10>>
\* History cleared.\n
T_Cleared == <<72, 105, 115, 116, 111, 114, 121, 32, 99, 108, 101, 97, 114, 101, 100, 46, 10>>
\* History depth: 
T_Depth == <<72, 105, 115, 116, 111, 114, 121, 32, 100, 101, 112, 116, 104, 58, 32>>
\* History 
T_HistWord == <<72, 105, 115, 116, 111, 114, 121, 32>>
\* in
T_In == <<105, 110>>
\* ex
T_Ex == <<101, 120>>
\* cludes failed commands.\n
T_Cludes == <<99, 108, 117, 100, 101, 115, 32, 102, 97, 105, 108, 101, 100, 32, 99, 111, 109, 109, 97, 110, 100, 115, 46, 10>>
\* Valid options are [clear|depth|logerrors]\n
T_Valid == <<86, 97, 108, 105, 100, 32, 111, 112, 116, 105, 111, 110, 115, 32, 97, 114, 101, 32, 91, 99, 108, 101, 97, 114, 124, 100, 101, 112, 116, 104, 124, 108, 111, 103, 101, 114, 114, 111, 114, 115, 93, 10>>
\* Console prints command help on failure: 
T_Hof == <<67, 111, 110, 115, 111, 108, 101, 32, 112, 114, 105, 110, 116, 115, 32, 99, 111, 109, 109, 97, 110, 100, 32, 104, 101, 108, 112, 32, 111, 110, 32, 102, 97, 105, 108, 117, 114, 101, 58, 32>>
\* yes.\n
T_Yes == <<121, 101, 115, 46, 10>>
\* no.\n
T_No == <<110, 111, 46, 10>>
\* Console autoprompt 
T_Prompt == <<67, 111, 110, 115, 111, 108, 101, 32, 97, 117, 116, 111, 112, 114, 111, 109, 112, 116, 32>>
\* Console force-return 
T_Force == <<67, 111, 110, 115, 111, 108, 101, 32, 102, 111, 114, 99, 101, 45, 114, 101, 116, 117, 114, 110, 32>>
\* Console RX terminator: 
T_Rx == <<67, 111, 110, 115, 111, 108, 101, 32, 82, 88, 32, 116, 101, 114, 109, 105, 110, 97, 116, 111, 114, 58, 32>>
\* Terminator options:\n\t0: ZEROBYTE\n\t1: CR\n\t2: LF\n\t3: CRLF\n
T_Opts == <<84, 101, 114, 109, 105, 110, 97, 116, 111, 114, 32, 111, 112, 116, 105, 111, 110, 115, 58, 10, 9, 48, 58, 32, 90, 69, 82, 79, 66, 89, 84, 69, 10, 9, 49, 58, 32, 67, 82, 10, 9, 50, 58, 32, 76, 70, 10, 9, 51, 58, 32, 67, 82, 76, 70, 10>>
\* ZEROBYTE
T_ZEROBYTE == <<90, 69, 82, 79, 66, 89, 84, 69>>
\* CR
T_CR == <<67, 82>>
\* LF
T_LF == <<76, 70>>
\* CRLF
T_CRLF == <<67, 82, 76, 70>>
============================================================================
