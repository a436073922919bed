package main

import (
	"reflect"
	"unsafe"

	"github.com/mutecomm/mute/serviceguard/client"
	"github.com/mutecomm/mute/serviceguard/client/packetproto"
)

func packetClient(c *client.Client) *packetproto.Client {
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf((*packetproto.Client)(nil)) {
			return *(**packetproto.Client)(unsafe.Pointer(v.Field(i).UnsafeAddr()))
		}
	}
	panic("no packet client")
}
