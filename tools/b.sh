. /opt/vp/env.sh; cd /verif/govc && go build -o ../bin/govc . && cd .. && bin/govc "$@"
