# which harness decides a property: the one of the files (D.., C..), that of figures and python (P.., Y..)
# or that of the rest
case $1 in
[DC][0-9][0-9]) kind=io program=up4verif_io ;;
[PY][0-9][0-9]) kind=full program=up4verif_full ;;
*) kind=scope program=up4verif ;;
esac
