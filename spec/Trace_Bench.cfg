SPECIFICATION Spec
CONSTANTS ONE = "281474976710656"
          MAXW = "340282366920938463463374607431768211455"
          MAXWW = "115792089237316195423570985008687907853269984665640564039457584007913129639935"
CHECK_DEADLOCK FALSE
POSTCONDITION AllJudged
