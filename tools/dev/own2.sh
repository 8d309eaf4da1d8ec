bash /tmp/own.sh $1 $2 2>&1 | grep -v "no result" | tail -20 | cut -c1-300;  cd /verif/work/own_s; grep -a MISMATCH /tmp/own.txt | cut -c1-420 | head -${3:-12} | while read x; do echo "$x"; p=$(echo "$x" | grep -oE 'p[0-9]+\.rs'); l=$(echo "$x" | grep -oE '\bl \|-> [0-9]+' | head -1 | grep -oE '[0-9]+'); sed -n ${l}p $p;  done
