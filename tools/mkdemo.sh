#!/bin/bash
# mkdemo.sh <id> native|full|lite [release]: writes seeded/<id>/demo.sh from the template.
cd "$(dirname "$0")/.." || exit 1
d=seeded/$1; F=""; DIR=debug
[ "$3" = release ] && { F=--release; DIR=release; }
case $2 in
 native) a='default-features = true'; b=$a; c=$a; x='' ;;
 lite) a='default-features = false'; b=$a; c=$a; x='' ;;
 full) a='features = ["r1cs"]'; b=$a; c='default-features = true'
  x='ark-ff = { version = "0.4", default-features = false }\nark-r1cs-std = { version = "0.4", default-features = false }\nark-relations = { version = "0.4", default-features = false }\nark-groth16 = { version = "0.4", default-features = false }\nark-snark = { version = "0.4", default-features = false }\nark-std = { version = "0.4", default-features = false }' ;;
esac
sed -e "s|@P377@|$a|; s|@PERM@|$b|; s|@PARM@|$c|; s|@EXTRA@|$x|; s|@FLAGS@|$F|; s|@DIR@|$DIR|" tools/demo.sh.tmpl > $d/demo.sh; chmod +x $d/demo.sh
