---------------------------- MODULE CfgLeafData ----------------------------
(* Generated by tools/genwords.py: keys, values and contexts of MC_Leaves. *)
Keys == { <<117, 110, 105, 120>>,
  <<119, 105, 110, 100, 111, 119, 115>>,
  <<116, 101, 115, 116>>,
  <<100, 101, 98, 117, 103, 95, 97, 115, 115, 101, 114, 116, 105, 111, 110, 115>>,
  <<112, 114, 111, 99, 95, 109, 97, 99, 114, 111>>,
  <<102, 101, 97, 116, 117, 114, 101>>,
  <<112, 97, 110, 105, 99>>,
  <<116, 97, 114, 103, 101, 116, 95, 97, 98, 105>>,
  <<116, 97, 114, 103, 101, 116, 95, 97, 114, 99, 104>>,
  <<116, 97, 114, 103, 101, 116, 95, 111, 115>>,
  <<116, 97, 114, 103, 101, 116, 95, 102, 97, 109, 105, 108, 121>>,
  <<116, 97, 114, 103, 101, 116, 95, 101, 110, 118>>,
  <<116, 97, 114, 103, 101, 116, 95, 118, 101, 110, 100, 111, 114>>,
  <<116, 97, 114, 103, 101, 116, 95, 102, 101, 97, 116, 117, 114, 101>>,
  <<116, 97, 114, 103, 101, 116, 95, 101, 110, 100, 105, 97, 110>>,
  <<116, 97, 114, 103, 101, 116, 95, 104, 97, 115, 95, 97, 116, 111, 109, 105, 99>>,
  <<116, 97, 114, 103, 101, 116, 95, 112, 111, 105, 110, 116, 101, 114, 95, 119, 105, 100, 116, 104>>,
  <<116, 97, 114, 103, 101, 116, 95>>,
  <<116, 97, 114, 103, 101, 116>>,
  <<116, 97, 114, 103, 101, 116, 95, 111, 115, 115>>,
  <<116, 97, 114, 103, 101, 116, 95, 111>>,
  <<116, 97, 114, 103, 101, 116, 95, 79, 115>>,
  <<84, 97, 114, 103, 101, 116, 95, 111, 115>>,
  <<116, 97, 114, 103, 101, 116, 95, 111, 115, 95>>,
  <<116, 97, 114, 103, 101, 116, 95, 116, 104, 114, 101, 97, 100, 95, 108, 111, 99, 97, 108>>,
  <<116, 97, 114, 103, 101, 116, 95, 104, 97, 115, 95, 97, 116, 111, 109, 105, 99, 115>>,
  <<116, 97, 114, 103, 101, 116, 95, 104, 97, 115, 95, 97, 116, 111, 109, 105, 99, 95, 108, 111, 97, 100, 95, 115, 116, 111, 114, 101>>,
  <<116, 97, 114, 103, 101, 116, 95, 119, 105, 100, 116, 104, 115>>,
  <<116, 97, 114, 103, 101, 116, 95, 117, 110, 105, 120>>,
  <<116, 97, 114, 103, 101, 116, 95, 112, 111, 105, 110, 116, 101, 114>>,
  <<116, 97, 114, 103, 101, 116, 95, 116, 101, 115, 116>>,
  <<85, 110, 105, 120>>,
  <<117, 110, 105, 120, 120>>,
  <<95, 117, 110, 105, 120>>,
  <<117, 110, 105, 120, 95>>,
  <<117, 110, 105, 120, 49>>,
  <<119, 105, 110, 100, 111, 119, 115, 115>>,
  <<87, 105, 110, 100, 111, 119, 115>>,
  <<119, 97, 115, 109>>,
  <<116, 101, 115, 116, 115>>,
  <<116, 101, 115>>,
  <<100, 101, 98, 117, 103, 95, 97, 115, 115, 101, 114, 116, 105, 111, 110>>,
  <<112, 114, 111, 99, 95, 109, 97, 99, 114, 111, 115>>,
  <<102, 101, 97, 116, 117, 114, 101, 115>>,
  <<70, 101, 97, 116, 117, 114, 101>>,
  <<112, 97, 110, 105, 99, 115>>,
  <<95>>,
  <<97>>,
  <<90, 57, 95>>,
  <<97, 108, 108, 120>>,
  <<97, 110, 121, 49>>,
  <<110, 111, 116, 95>>,
  <<99, 102, 103>>,
  <<116, 114, 117, 101>>,
  <<118, 101, 114, 115, 105, 111, 110>>,
  <<100, 111, 99>> }
Values == { <<>>,
  <<97>>,
  <<108, 105, 110, 117, 120>>,
  <<117, 110, 105, 120>>,
  <<119, 105, 110, 100, 111, 119, 115>>,
  <<120, 56, 54, 95, 54, 52>>,
  <<103, 110, 117>>,
  <<117, 110, 119, 105, 110, 100>>,
  <<97, 98, 111, 114, 116>>,
  <<98, 105, 103>>,
  <<108, 105, 116, 116, 108, 101>>,
  <<66, 105, 103>>,
  <<98, 105, 103, 103, 101, 114>>,
  <<98, 105, 103, 32>>,
  <<54, 52>>,
  <<51, 50>>,
  <<49, 54>>,
  <<56>>,
  <<48>>,
  <<50, 53, 53>>,
  <<50, 53, 54>>,
  <<51, 48, 48>>,
  <<54, 53, 53, 51, 53>>,
  <<54, 53, 53, 51, 54>>,
  <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>,
  <<52, 50, 57, 52, 57, 54, 55, 51, 48, 52>>,
  <<43, 56>>,
  <<43, 48, 54, 52>>,
  <<45, 56>>,
  <<43>>,
  <<32, 56>>,
  <<56, 32>>,
  <<56, 97>>,
  <<48, 120, 56>>,
  <<49, 95, 54>>,
  <<1635>>,
  <<65304>>,
  <<112, 116, 114>>,
  <<80, 116, 114>>,
  <<112, 116, 114, 32>>,
  <<110, 111, 110, 101>>,
  <<117, 110, 107, 110, 111, 119, 110>>,
  <<233>>,
  <<26085, 26412>>,
  <<128512>>,
  <<32, 97>>,
  <<97, 32, 98>>,
  <<9>>,
  <<40>>,
  <<41>>,
  <<44>>,
  <<61>>,
  <<97, 108, 108, 40>>,
  <<97, 44, 98>>,
  <<92>>,
  <<92, 110>>,
  <<39>>,
  <<99, 102, 103, 40, 120, 41>>,
  <<47, 47>>,
  <<12288>> }
Contexts == << <<<<>>, <<>>>>,
  <<<<99, 102, 103, 40>>, <<41>>>>,
  <<<<32, 9>>, <<10>>>>,
  <<<<>>, <<32, 44>>>>,
  <<<<97, 108, 108, 40>>, <<41>>>>,
  <<<<110, 111, 116, 40>>, <<41>>>>,
  <<<<97, 110, 121, 40, 32>>, <<32, 44, 41>>>>,
  <<<<97, 108, 108, 40, 233, 57, 61, 34, 26085, 34, 44, 32>>, <<44, 32, 98, 41>>>>,
  <<<<97, 110, 121, 40, 97, 108, 108, 40, 41, 44, 32>>, <<41>>>>,
  <<<<97, 108, 108, 40, 97, 110, 121, 40>>, <<41, 44, 32, 99, 44, 32, 110, 111, 116, 40, 100, 41, 41>>>>,
  <<<<97, 110, 121, 40, 12288, 107, 32, 61, 32, 34, 128512, 40, 34, 32, 44>>, <<12288, 41>>>>,
  <<<<97, 108, 108, 40, 98, 44, 32, 110, 111, 116, 40>>, <<41, 44, 41>>>>,
  <<<<97, 108, 108, 40, 97, 44, 97, 110, 121, 40, 98, 44>>, <<41, 44, 99, 41>>>> >>
(* leaves of every kind (MC_Same); keys that take any value, and characters that might mean something (MC_Quoted) *)
SameLeaves == << <<97>>,
  <<117, 110, 105, 120>>,
  <<116, 97, 114, 103, 101, 116, 95, 102, 97, 109, 105, 108, 121, 61, 34, 117, 110, 105, 120, 34>>,
  <<119, 105, 110, 100, 111, 119, 115>>,
  <<116, 101, 115, 116>>,
  <<100, 101, 98, 117, 103, 95, 97, 115, 115, 101, 114, 116, 105, 111, 110, 115>>,
  <<112, 114, 111, 99, 95, 109, 97, 99, 114, 111>>,
  <<102, 101, 97, 116, 117, 114, 101, 61, 34, 102, 34>>,
  <<102, 101, 97, 116, 117, 114, 101, 61, 34, 34>>,
  <<107, 61, 34, 118, 34>>,
  <<107, 61, 34, 34>>,
  <<107>>,
  <<112, 97, 110, 105, 99, 61, 34, 97, 98, 111, 114, 116, 34>>,
  <<116, 97, 114, 103, 101, 116, 95, 102, 101, 97, 116, 117, 114, 101, 61, 34, 102, 34>>,
  <<116, 97, 114, 103, 101, 116, 95, 111, 115, 61, 34, 102, 34>>,
  <<116, 97, 114, 103, 101, 116, 95, 97, 114, 99, 104, 61, 34, 102, 34>>,
  <<116, 97, 114, 103, 101, 116, 95, 101, 110, 118, 61, 34, 34>>,
  <<116, 97, 114, 103, 101, 116, 95, 97, 98, 105, 61, 34, 34>>,
  <<116, 97, 114, 103, 101, 116, 95, 118, 101, 110, 100, 111, 114, 61, 34, 102, 34>>,
  <<116, 97, 114, 103, 101, 116, 95, 101, 110, 100, 105, 97, 110, 61, 34, 98, 105, 103, 34>>,
  <<116, 97, 114, 103, 101, 116, 95, 104, 97, 115, 95, 97, 116, 111, 109, 105, 99, 61, 34, 56, 34>>,
  <<116, 97, 114, 103, 101, 116, 95, 104, 97, 115, 95, 97, 116, 111, 109, 105, 99, 61, 34, 112, 116, 114, 34>>,
  <<116, 97, 114, 103, 101, 116, 95, 104, 97, 115, 95, 97, 116, 111, 109, 105, 99, 61, 34, 48, 56, 34>>,
  <<116, 97, 114, 103, 101, 116, 95, 112, 111, 105, 110, 116, 101, 114, 95, 119, 105, 100, 116, 104, 61, 34, 56, 34>> >>
TextKeys == << <<102, 101, 97, 116, 117, 114, 101>>,
  <<112, 97, 110, 105, 99>>,
  <<116, 97, 114, 103, 101, 116, 95, 97, 98, 105>>,
  <<116, 97, 114, 103, 101, 116, 95, 97, 114, 99, 104>>,
  <<116, 97, 114, 103, 101, 116, 95, 111, 115>>,
  <<116, 97, 114, 103, 101, 116, 95, 102, 97, 109, 105, 108, 121>>,
  <<116, 97, 114, 103, 101, 116, 95, 101, 110, 118>>,
  <<116, 97, 114, 103, 101, 116, 95, 118, 101, 110, 100, 111, 114>>,
  <<116, 97, 114, 103, 101, 116, 95, 102, 101, 97, 116, 117, 114, 101>>,
  <<107>>,
  <<117, 110, 105, 120, 95>> >>
Marks == <<32, 33, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 58, 59, 60, 61, 62, 63, 64, 91, 92, 93, 94, 95, 96, 123, 124, 125, 126, 48, 57, 97, 90, 9, 10, 13, 0, 160, 233, 8232, 304, 128512>>
=============================================================================
